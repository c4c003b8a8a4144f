"""C02: oil mass is conserved, step by step, whatever the configuration and history."""
import numpy as np

from .. import engine, scen
from .observed import Observed

REMOVED = ('evaporated', 'natural_dispersion', 'sedimentation', 'skimmed', 'burned',
           'chem_dispersed', 'dissolution', 'bio_degradation', 'observed_beached', 'off_maps')
TO_KG = None


class PROP(Observed):
    id = 'C02'
    quick_n = 1200
    thorough_n = 20000
    rule = ('seeded model configuration (oil or not, weatherers, cleanup, boxes and islands) and '
            'history with component failures and interrupts; the balance is evaluated after '
            'every step. Non-trivial: mass was present at some checked step.')

    def gen_spec(self, rng, index):
        spec = scen.gen_spec(rng, weathering=rng.random() < 0.75,
                             maps=('global', 'box', 'bna', 'bna', 'param'))
        # the half-life weatherer models decay and books the loss nowhere: no balance to keep
        spec['weatherers'] = [w for w in spec['weatherers'] if w['t'] != 'halflife']
        if spec['map']['t'] == 'param':
            # a ParamMap takes spills at its centre only
            if any(s['t'] != 'point' for s in spec['spills']):
                spec['map'] = {'t': 'global'}
            else:
                for s in spec['spills']:
                    s['lon'] = s['lat'] = 0.0
        return spec

    def init_state(self, m, case):
        return {'prev': {}, 'seen': 0}

    def check(self, m, st, ctx):
        total = sum(sp.get_mass() for sp in m.spills if sp.on)
        for sc in m.spills.items():
            who = 'uncertain ' if sc.uncertain else ''
            at = '%sstep %d' % (who, m.current_time_step)
            mass = np.asarray(sc['mass'])
            mb = sc.mass_balance
            rel = mb.get('amount_released', 0.0)
            tol = 1e-9 * max(total, 1e-6)
            if not np.all(np.isfinite(mass)):
                raise engine.Violation('mass-not-finite', '%s: mass %r' % (at, mass.tolist()))
            if len(mass) and mass.min() < -tol:
                raise engine.Violation('negative-mass', '%s: element mass %r' % (at, mass.min()))
            if 'mass_components' in sc and len(mass) and sc['mass_components'].shape[1] > 0 \
                    and m.has_weathering:
                comp = np.asarray(sc['mass_components'])
                if comp.min() < -tol:
                    raise engine.Violation('negative-component', '%s: %r' % (at, comp.min()))
                if not np.allclose(comp.sum(axis=1), mass, rtol=1e-5, atol=max(tol, 1e-9)):
                    i = int(np.argmax(abs(comp.sum(axis=1) - mass)))
                    raise engine.Violation('components', '%s: components of element %d sum to '
                                           '%r, its mass is %r' % (at, i, comp[i].sum(), mass[i]))
            for k in REMOVED:
                v = mb.get(k, 0.0)
                if v < -tol:
                    raise engine.Violation('negative-budget', '%s: %s is %r' % (at, k, v))
                p = st['prev'].get((sc.uncertain, k), 0.0)
                if v < p - tol:
                    raise engine.Violation('budget-shrinks', '%s: %s fell from %r to %r'
                                           % (at, k, p, v))
                st['prev'][(sc.uncertain, k)] = v
            if rel > total * (1 + 1e-9) + tol:
                raise engine.Violation('released-too-much', '%s: %r released of %r kg spilled'
                                       % (at, rel, total))
            acc = mass.sum() + sum(mb.get(k, 0.0) for k in REMOVED)
            if abs(acc - rel) > 1e-5 * max(rel, total, 1e-6):
                raise engine.Violation('balance', '%s: released %r kg, accounted for %r kg: '
                                       'elements %r, %s' % (at, rel, acc, mass.sum(), {
                                           k: mb[k] for k in REMOVED if k in mb}))
            # the reported state of the remaining oil is that of the elements
            codes = np.asarray(sc['status_codes'])
            z = np.asarray(sc['positions'])[:, 2] if len(codes) else np.zeros(0)
            fl = mass[(codes == 2) & (z == 0.0)].sum()
            if abs(fl - mb.get('floating', 0.0)) > 1e-9 * max(total, 1e-6):
                raise engine.Violation('floating', '%s: %r kg reported afloat, %r kg of '
                                       'elements are' % (at, mb.get('floating'), fl))
            la = mass[codes == 3].sum()
            if abs(la - mb.get('beached', 0.0)) > 1e-9 * max(total, 1e-6):
                raise engine.Violation('beached', '%s: %r kg reported beached, %r kg of '
                                       'elements are' % (at, mb.get('beached'), la))
            if la > 0:
                ctx.count('probe:beached')
            st['seen'] += mass.sum() > 0
            for k in REMOVED:
                if mb.get(k, 0.0) > 0:
                    ctx.count('probe:' + k)
