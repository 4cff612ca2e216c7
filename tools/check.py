#!/usr/bin/env python3
"""check.py ID: builds what property ID needs from /repo's working tree, explores, writes evidence/ID.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; other: error of the check."""
import json, os, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from parts import PARTS, LEVEL


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    parts = PARTS[pid]
    by_flavor = {}
    for p in parts:
        by_flavor.setdefault(p['flavor'], []).append(p['target'])
    for f, ts in by_flavor.items():
        r = subprocess.run(['bash', V + '/tools/build.sh', f] + sorted(set(ts)))
        if r.returncode:
            print('ERROR: build failed (%s)' % f)
            return 3
    build_s = time.time() - t0
    known = []
    kf = os.path.join(V, 'known_findings.json')
    if os.path.exists(kf):
        known = [k['key'] for k in json.load(open(kf)).get('known', []) if k['property'] == pid]
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1'
    env['TZ'] = 'UTC'
    rc, evs = 0, []
    for p in parts:
        out = '%s/.build/run/%s.%s' % (V, pid, p.get('name', p['target']))
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        ev = out + '/part.json'
        cmd = ['%s/.build/%s/omniscidb/verif/%s' % (V, p['flavor'], p['target']), '--property', pid, '--tier', tier,
               '--jobs', str(p.get('jobs', 8)), '--out', out, '--evidence', ev] + list(p.get('args', []))
        if tier == 'quick' and p.get('budget'):
            cmd += ['--budget', str(p['budget'])]
        for k in known:
            cmd += ['--known', k]
        e = dict(env)
        e.update(p.get('env', {}))
        r = subprocess.run(cmd, cwd=out, env=e)
        if os.path.exists(ev):
            d = json.load(open(ev))
            d['part'] = p.get('name', p['target'])
            evs.append(d)
        if r.returncode == 1:
            rc = 1
            break
        if r.returncode != 0:
            print('ERROR: %s exited %d' % (p['target'], r.returncode))
            rc = rc or 4
    cov = {
        'states': sum(d['states'] for d in evs),
        'transitions': sum(d['transitions'] for d in evs),
        'traces_validated_against_impl': sum(d['executions'] for d in evs),
        'exhaustive': bool(evs) and all(d['exhaustive'] for d in evs),
        'rule': ' | '.join(d['rule'] for d in evs if d['rule']),
        'scenarios': [s for d in evs for s in d['scenarios']],
        'known_finding_hits': sum(d['known_hits'] for d in evs),
        'samples': [s for d in evs for s in d['samples']][:12],
        'parts': [{k: d[k] for k in ('part', 'executions', 'states', 'transitions', 'pruned', 'longest_path', 'exhaustive', 'wall_s')} for d in evs],
        'build_s': round(build_s, 1),
    }
    assumptions = []
    for d in evs:
        for a in d['assumptions']:
            if a not in assumptions:
                assumptions.append(a)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': LEVEL.get(pid, 'model_checking'), 'coverage': cov,
               'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2),
               'violations': sum(d['violations'] for d in evs)},
              open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    return rc


sys.exit(main())
