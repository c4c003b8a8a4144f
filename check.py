#!/opt/venv/bin/python
"""check.py <property-id> [--tier quick|thorough] [--seed N] [--n N] [--replay FILE]

Exit 0: the property held in every simulated run.
Exit 1: a line "VIOLATION property=<id> replay=<path>" says where it did not.
Any other exit: the check itself is broken (build failure, harness error).
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'

if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sim import boot, engine          # noqa: E402
from sim import registry              # noqa: E402


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except OSError:
        return {'known': [], 'fixed': []}


def matches(entry, prop, res):
    if entry['property'] != prop.id or entry['kind'] != res.get('kind'):
        return False
    return all(s in res.get('message', '') for s in entry.get('message_contains', []))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--n', type=int)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--digest', action='store_true', help='print the digest of all event logs')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violations')
    ap.add_argument('--index', type=int, help='run a single case of the seed')
    a = ap.parse_args()

    try:
        boot.ensure_native()
    except boot.BuildFailed as e:
        print('ERROR: the native build of /repo failed\n%s' % e)
        return 3
    boot.load()
    prop = registry.get(a.prop)

    if a.replay:
        rec, res = engine.replay(prop, a.replay, prop.timeout)
        if res['outcome'] == 'violation':
            same = res['kind'] == rec['kind']
            print('%s: %s' % (res['kind'], res['message']))
            print('VIOLATION property=%s replay=%s%s' % (
                prop.id, a.replay, '' if same else ' (a different violation than recorded)'))
            return 1
        print('%s %s' % (res['outcome'], res.get('message', '')))
        return 0 if res['outcome'] == 'ok' else 2

    if a.index is not None:
        case = prop.gen(engine.rng_for(a.seed, prop.id, a.index), a.index)
        case.setdefault('world_seed', a.index)
        print(json.dumps(case, indent=1, sort_keys=True))
        res = engine.run_in_child(prop, case, os.path.join(engine.scratch_root(), 'one'),
                                  prop.timeout)
        print(json.dumps({k: v for k, v in res.items() if k != 'states'}, indent=1))
        print(res.get('message'))
        return 0 if res['outcome'] == 'ok' else 1

    n = a.n or (prop.quick_n if a.tier == 'quick' else prop.thorough_n)
    wall = a.wall or (420.0 if a.tier == 'quick' else 3 * 3600.0)
    known = load_known()
    t0 = time.monotonic()
    results, bad_workers, secs = engine.run_batch(
        prop, a.seed, n, a.jobs, wall, prop.timeout,
        stop_after=0 if a.all else 3,
        is_known=lambda res: any(matches(k, prop, res) for k in known['known']))

    if a.digest:
        import hashlib
        h = hashlib.sha256()
        for i in sorted(results):
            x = results[i]
            h.update(json.dumps([i, x['outcome'], x.get('kind'), x.get('log')]).encode())
        print('DIGEST %s n=%d %s' % (prop.id, len(results), h.hexdigest()))

    harness = {i: x for i, x in results.items() if x['outcome'] == 'harness'}
    viol = {i: x for i, x in results.items() if x['outcome'] == 'violation'}
    new, known_hits = {}, {}
    for i, x in sorted(viol.items()):
        hit = [k for k in known['known'] if matches(k, prop, x)]
        if hit:
            known_hits.setdefault(hit[0]['what'], []).append(i)
        else:
            new[i] = x

    rc = 0
    for k in known['known']:
        if k['property'] == prop.id:
            print('KNOWN-FINDING: property=%s %s (%d of %d runs)' % (
                prop.id, k['what'], len(known_hits.get(k['what'], [])), len(results)))
    if new:
        rc = 1
        by_kind = {}
        for i in sorted(new):
            by_kind.setdefault(new[i]['kind'], i)
        for kind, i in sorted(by_kind.items()):
            case = prop.gen(engine.rng_for(a.seed, prop.id, i), i)
            case.setdefault('world_seed', i)
            best, tries = engine.minimise(prop, case, kind,
                                          budget=40.0 if a.tier == 'quick' else 300.0)
            scratch = os.path.join(engine.scratch_root(), 'fin')
            res = engine.run_in_child(prop, best, scratch, prop.timeout)
            if res['outcome'] != 'violation':     # cannot happen for a deterministic run
                best, res = case, new[i]
            path = engine.write_replay(prop, a.seed, i, best, res, tries)
            ok, _ = engine.replay_fresh(prop, path)
            print('seed %d case %d: %s: %s' % (a.seed, i, res['kind'], res['message']))
            print('replay in a fresh process %s' % ('reproduces it' if ok else
                                                   'DID NOT REPRODUCE IT'))
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        if harness:
            print('(%d harness errors besides; the first: case %d: %s)' % (
                len(harness), sorted(harness)[0], harness[sorted(harness)[0]].get('message')))
    elif harness:
        i = sorted(harness)[0]
        print('HARNESS ERROR in %d runs; first: seed %d case %d\n%s' % (
            len(harness), a.seed, i, harness[i].get('message')))
        rc = 2
    elif bad_workers:
        print('HARNESS ERROR: %d workers ended abnormally' % bad_workers)
        rc = 2
    elif not results:
        print('HARNESS ERROR: nothing ran')
        rc = 2
    write_evidence(prop, a, results, new, known_hits, secs, time.monotonic() - t0, n)
    if rc == 0:
        print('OK property=%s: %d simulated runs in %.1f s' % (prop.id, len(results), secs))
    return rc


def write_evidence(prop, a, results, new, known_hits, secs, wall, planned):
    counts, states, sim, nontriv = {}, set(), 0.0, set()
    for i, x in results.items():
        for k, v in (x.get('counts') or {}).items():
            counts[k] = counts.get(k, 0) + v
        states.update(x.get('states') or ())
        sim += x.get('sim_seconds') or 0.0
        if x.get('nontrivial'):
            nontriv.add(x.get('log'))
    samples = []
    for i in sorted(results)[:2]:
        case = prop.gen(engine.rng_for(a.seed, prop.id, i), i)
        samples.append({'index': i, 'case': case, 'outcome': results[i]['outcome'],
                        'event_log_sha256': results[i].get('log')})
    faults = {k[6:]: v for k, v in counts.items() if k.startswith('fault:')}
    ops = {k[3:]: v for k, v in counts.items() if k.startswith('op:')}
    probes = {k[6:]: v for k, v in counts.items() if k.startswith('probe:')}
    ev = {
        'property': prop.id, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': a.seed, 'level': prop.level,
        'coverage': {
            'evaluations': len(results),
            'planned_runs': planned,
            'distinct_nontrivial': len(nontriv),
            'rule': prop.rule + ' Distinct: by the digest of the whole event log of the run.',
            'samples': samples,
            'runs_per_hour': round(len(results) / max(secs, 1e-9) * 3600),
            'seeds_per_hour': round(len(results) / max(secs, 1e-9) * 3600),
            'simulated_hours': round(sim / 3600.0, 2),
            'faults_injected': faults,
            'operations': ops,
            'probes': probes,
            'distinct_states': len(states),
            'distinct_states_measure': prop.state_measure,
            'events_logged': sum(x.get('nlog') or 0 for x in results.values()),
            'real_components': prop.real,
            'stubbed_components': prop.stub,
            'known_finding_runs': {k: len(v) for k, v in known_hits.items()},
        },
        'assumptions': list(prop.assumptions) + [
            'seeded search: a clean batch is evidence over the sampled runs, not a proof'],
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)


if __name__ == '__main__':
    sys.exit(main())
