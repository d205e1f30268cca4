"""python3-vt -m vp.check C01 [--tier quick|thorough] [--only CASE] [--jobs N] [-v]

Decides one property: explores every case of its harness symbolically, replays counterexamples on the
real code, compares sampled paths with the real code, writes evidence/<id>.json.

exit 0  the property held on everything explored        exit 1  VIOLATION (replayed on the real code)
exit 2  the check itself failed (never on the unchanged tree)"""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_PY = '/opt/venv/bin/python'
if not os.path.exists(REPLAY_PY):
    REPLAY_PY = sys.executable


def replay_many(items, timeout=600):
    """run concretely on the real code, in a separate process without solver or instrumentation"""
    if not items:
        return []
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(items, f)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent',
               PYTHONPATH=HERE)
    try:
        p = subprocess.run([REPLAY_PY, '-m', 'vp.replay', f.name], cwd=HERE, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        if p.returncode != 0:
            raise RuntimeError('replay process failed: ' + p.stderr.decode()[-2000:])
        return json.loads(p.stdout.decode())
    finally:
        os.unlink(f.name)


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f):
                if e.get('status') == 'known' and e['property'] == prop:
                    out.append(e)
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--eager', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = a.budget or (480.0 if tier == 'quick' else 6 * 3600.0)
    sys.path.insert(0, HERE)
    from . import explore
    explore.setup_process()
    hm = explore.harness_module(prop)
    cases = [c for c in hm.cases(tier)]
    cases = [dict(name=str(c[0]), func=str(c[1]), args=dict((str(k), v) for k, v in dict(c[2]).items()),
                  must=list(c[3]) if len(c) > 3 else []) for c in cases]
    if a.only:
        cases = [c for c in cases if a.only in c['name']]
    known = load_known(prop)
    known_labels = sorted(set(k['label'] for k in known))
    t0 = time.time()
    st = {c['name']: {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'decisions': 0, 'unknown': 0, 'infeasible': 0,
                      'checks': 0, 'cpu': 0.0, 'eager': a.eager, 'reached': {}, 'open': 0, 'spurious': 0,
                      'stopped': 0} for c in cases}
    bycase = {c['name']: c for c in cases}
    entered = set()
    samples = []
    confirmed = []
    known_hit = {}
    spurious = []
    seen_viol = {}
    errors = []
    gen = {c['name']: 0 for c in cases}
    ctx = mp.get_context('fork')
    ex = cf.ProcessPoolExecutor(max_workers=a.jobs, mp_context=ctx)
    futs = {}
    queue = []
    incomplete = set()
    unsupported = set()

    def enqueue(case, prefix, eager):
        queue.append((case['name'], prefix, eager))

    def submit():
        while queue and len(futs) < a.jobs * 2:
            name, prefix, eager = queue.pop(0)
            c = bycase[name]
            sl = 0.6 if len(queue) < a.jobs else 3.0
            job = dict(property=prop, name=name, func=c['func'], args=c['args'], prefix=prefix, slice=sl, eager=eager,
                       seed=seed, known=known_labels)
            futs[ex.submit(explore.run_job, job)] = (name, gen[name], prefix)
            st[name]['open'] += 1

    for c in cases:
        enqueue(c, [], a.eager)
    stop = False
    submit()
    while futs:
        done, _ = cf.wait(list(futs), timeout=5, return_when=cf.FIRST_COMPLETED)
        for f in done:
            name, g, prefix = futs.pop(f)
            s = st[name]
            s['open'] -= 1
            try:
                r = f.result()
            except Exception as e:
                errors.append('%s: worker failed: %r' % (name, e))
                incomplete.add(name)
                if isinstance(e, cf.process.BrokenProcessPool):
                    stop = True
                    break
                continue
            if g != gen[name]:
                continue
            for k in ('paths', 'queries', 'solver_s', 'decisions', 'unknown', 'infeasible', 'checks'):
                s[k] += r['stats'][k]
            s['cpu'] += r['wall']
            for l, n in r['reached'].items():
                s['reached'][l] = s['reached'].get(l, 0) + n
            entered.update(r['entered'])
            s['stopped'] += len(r['stopped'])
            if r['stopped']:
                incomplete.add(name)
            unsupported.update((name, x[5:]) for x in r['stopped'] if x.startswith('stop:unsupported'))
            for smp in r['samples']:
                samples.append(dict(case=name, **smp))
            # counterexamples
            viol = []
            for v in r['violations']:
                n = seen_viol.setdefault((name, v['label']), 0)
                if n < (60 if s['eager'] else 3):
                    seen_viol[(name, v['label'])] = n + 1
                    viol.append(v)
            if viol and not stop:
                items = [dict(property=prop, func=bycase[name]['func'], args=bycase[name]['args'], inputs=v['inputs'],
                              known=known_labels, timeout=30) for v in viol]
                outs = replay_many(items)
                for v, item, o in zip(viol, items, outs):
                    fails = [x[0] for x in o['failures']]
                    new = [x for x in fails if x not in known_labels]
                    if o['assumption']:
                        new = []
                    if new or o['exception'] or o['timeout']:
                        confirmed.append((name, v, item, o))
                    elif fails:
                        for x in fails:
                            known_hit.setdefault((name, x), (v, item))
                    else:
                        spurious.append((name, v, item, o))
                        s['spurious'] += 1
                        if a.v:
                            print('spurious', name, v['label'], v['inputs'], v['info'])
                        if not s['eager']:
                            # the encoding does not describe this code: decide the case on native values
                            s['eager'] = True
                            gen[name] += 1
                            queue[:] = [q for q in queue if q[0] != name]
                            for k in ('paths', 'queries', 'decisions', 'unknown', 'infeasible', 'checks'):
                                s[k] = 0
                            incomplete.discard(name)
                            s['stopped'] = 0
                            enqueue(bycase[name], [], True)
                            break
                        else:
                            incomplete.add(name)
                if confirmed and not a.keep_going:
                    stop = True
            if g == gen[name] and not stop:
                for p in r['pending']:
                    enqueue(bycase[name], p, r['eager'])
        if time.time() - t0 > budget:
            for q in queue:
                incomplete.add(q[0])
            for f, (n, _, _) in futs.items():
                incomplete.add(n)
            stop = True
        if stop:
            queue.clear()
            for f in list(futs):
                f.cancel()
            break
        submit()
        if a.v and sys.stderr.isatty():
            sys.stderr.write('\r%6.1fs queue %d running %d   ' % (time.time() - t0, len(queue), len(futs)))
    procs = list(getattr(ex, '_processes', {}).values()) if getattr(ex, '_processes', None) else []
    if stop:
        for p in procs:
            try:
                p.terminate()
            except Exception:
                pass
    ex.shutdown(wait=not stop, cancel_futures=True)

    # sampled paths: the real code must do what the symbolic run said
    validated = 0
    mismatches = []
    if not confirmed:
        import random
        rng = random.Random(seed)
        per = {}
        for s in samples:
            per.setdefault(s['case'], []).append(s)
        chosen = []
        limit = 6 if tier == 'quick' else 40
        for n in sorted(per):
            rng.shuffle(per[n])
            if st[n]['eager']:
                continue
            chosen.extend(per[n][:limit])
        items = [dict(property=prop, func=bycase[s['case']]['func'], args=bycase[s['case']]['args'], inputs=s['inputs'],
                      known=known_labels) for s in chosen]
        outs = replay_many(items) if items else []
        for s, item, o in zip(chosen, items, outs):
            bad = [x for x in o['failures'] if x[0] not in known_labels]
            if bad or o['exception'] or o['timeout']:
                confirmed.append((s['case'], {'label': 'sampled path: ' + str(bad or o['exception'] or 'timeout'),
                                              'inputs': s['inputs'], 'info': None}, item, o))
            elif o['assumption'] or o['observations'] != s['observations']:
                mismatches.append((s['case'], s['inputs'], s['observations'], o))
            else:
                validated += 1

    vac = []
    if not confirmed and not stop and not a.only:
        for c in cases:
            if c['name'] in incomplete or c['name'] in [n for n, _ in unsupported]:
                continue
            for l in c['must']:
                if l not in st[c['name']]['reached']:
                    vac.append('%s: %s never reached' % (c['name'], l))
            if not st[c['name']]['checks']:
                vac.append('%s: no assertion was evaluated' % c['name'])
    wall = time.time() - t0
    tot = {k: sum(s[k] for s in st.values()) for k in ('paths', 'queries', 'decisions', 'unknown', 'infeasible', 'checks',
                                                       'solver_s', 'spurious')}
    exhaustive = not incomplete and not errors and not stop and tot['unknown'] == 0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2),
        'violations': len(confirmed),
        'assumptions': list(getattr(hm, 'ASSUMPTIONS', [])) + [
            'the code runs under CPython %d.%d semantics; hash() of equal keys is equal' % sys.version_info[:2],
            'bounds: see coverage.bounds; nothing is claimed outside them'],
        'coverage': {
            'states': tot['paths'], 'transitions': tot['decisions'], 'traces_validated_against_impl': validated,
            'samples': [{'case': s['case'], 'inputs': s['inputs']} for s in samples[:5]],
            'exhaustive': exhaustive,
            'technique': 'symbolic execution of the repository source, z3 decides every branch and every assertion',
            'functions_encoded': sorted(e for e in entered),
            'bounds': getattr(hm, 'BOUNDS', {}),
            'assertions_decided': tot['checks'], 'queries_discharged': tot['queries'],
            'solver_time_s': round(tot['solver_s'], 2), 'solver_unknown': tot['unknown'],
            'infeasible_paths_cut': tot['infeasible'],
            'cases': {n: {'paths': s['paths'], 'decisions': s['decisions'], 'queries': s['queries'],
                          'assertions': s['checks'], 'cpu_s': round(s['cpu'], 2),
                          'native_values': s['eager'], 'labels': s['reached'],
                          'complete': n not in incomplete} for n, s in st.items()},
            'spurious_counterexamples': tot['spurious'], 'model_mismatches': len(mismatches),
            'known_findings_seen': sorted('%s %s' % k for k in known_hit),
        },
    }
    evp = os.path.join(HERE, 'evidence')
    os.makedirs(evp, exist_ok=True)
    with open(os.path.join(evp, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s: %d cases, %d paths, %d assertions, %d solver queries (%.1fs), %d paths compared with the real code, %.1fs'
          % (prop, tier, len(cases), tot['paths'], tot['checks'], tot['queries'], tot['solver_s'], validated, wall))
    if a.v:
        for n, s in sorted(st.items(), key=lambda x: -x[1]['cpu']):
            print('   %-40s paths %6d dec %7d q %7d checks %6d cpu %6.1f %s' % (
                n, s['paths'], s['decisions'], s['queries'], s['checks'], s['cpu'], 'EAGER' if s['eager'] else ''))
    if confirmed:
        name, v, item, o = confirmed[0]
        rp = os.path.join(evp, '%s.counterexample.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(item, case=name, label=v['label'], result=o), f, indent=1)
        print('case %s, assertion %s' % (name, v['label']))
        print('inputs: %s' % json.dumps(item['inputs'], ensure_ascii=False)[:1500])
        print('on the real code: failed=%s exception=%s%s' % (o['failures'][:3], o['exception'] and o['exception']['msg'],
                                                            ' TIMEOUT' if o['timeout'] else ''))
        if o['exception'] and a.v:
            print(o['exception']['trace'])
        print('replay: cd %s && %s -m vp.replay %s' % (HERE, REPLAY_PY, rp))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    for k in known:
        hits = [n for (n, l) in known_hit if l == k['label']]
        if hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for m in mismatches[:3]:
        print('MODEL MISMATCH %s\n  inputs %s\n  symbolic %s\n  real     %s' % (m[0], m[1], m[2], m[3]))
    for e in errors[:5]:
        print('ERROR', e)
    for e in vac[:10]:
        print('VACUOUS', e)
    for n, x in sorted(unsupported)[:5]:
        print('%s: %s, no verdict' % (n, x))
    if incomplete:
        print('INCOMPLETE (not everything within the bounds was explored): %s' % ', '.join(sorted(incomplete))[:500])
    if spurious:
        print('note: %d counterexample(s) of the encoding did not reproduce; those cases were decided on native values'
              % len(spurious))
        if a.v:
            for n, v, item, o in spurious[:3]:
                print(n, v, o)
    if mismatches or vac or errors:
        # neither "held" nor "violated": say so without raising an alarm, unless nothing at all was decided
        if vac or (errors and not tot['checks']):
            return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)    # without waiting for workers that were stopped
