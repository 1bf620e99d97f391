#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID>   (VERIF_SEED, VERIF_TIER)."""
import hashlib, json, os, re, shutil, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, specs  # noqa: E402

VERIF = build.VERIF
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
WORKERS = int(os.environ.get('VERIF_WORKERS', str(os.cpu_count() or 8)))


def log(*a):
    print(*a, flush=True)


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                e = json.loads(line)
                if e.get('kind') == 'known':
                    out.append(e)
    return out


_sym = {}


def symbolise(exe, msg):
    """Appends file/function names for the code addresses in a message."""
    pcs = re.findall(r'0x[0-9a-f]{5,}', msg)
    pcs = [p for p in dict.fromkeys(pcs) if 0x400000 <= int(p, 16) < 0x40000000]
    if not pcs:
        return ''
    r = subprocess.run(['addr2line', '-e', exe, '-f', '-C', '-s'] + ['%#x' % (int(p, 16) - 1) for p in pcs],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    L = r.stdout.decode(errors='replace').splitlines()
    out = []
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(L):
            fn = re.sub(r'\(.*', '', L[2 * i])[:110]
            out.append('%s %s %s' % (p, fn, L[2 * i + 1]))
    return '; '.join(out)


def sim_component(pid, comp, tier, res):
    exe = build.harness(comp['name'], comp['cc'], comp.get('extra', ()), comp.get('skip', ()), comp.get('libs', ()), comp.get('flags', ()), comp.get('dirs', ()))
    work = os.path.join(build.BUILD, 'work', pid + '-' + comp['name'])
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    quick = tier == 'quick'
    runs = comp['quick_runs'] if quick else comp.get('thorough_runs', comp['quick_runs'] * 40)
    secs = comp.get('quick_secs', 60) if quick else comp.get('thorough_secs', 600)
    # Every property and harness gets its own stream of seeds.
    base = int(hashlib.sha256(('%d/%s/%s' % (SEED, pid, comp['name'])).encode()).hexdigest()[:15], 16)
    env = dict(os.environ)
    cmd = [exe, 'search', '--seed', str(base), '--runs', str(runs), '--secs', str(secs), '--workers', str(WORKERS),
           '--outdir', work, '--maxviol', '6']
    log('[%s] %s: seed=%d runs<=%d' % (pid, comp['name'], base, runs))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    try:
        s = json.loads(r.stdout.decode().strip().splitlines()[-1])
    except Exception:
        res['errors'].append('%s: no summary (rc=%s): %s' % (comp['name'], r.returncode, (r.stdout + r.stderr)[-1500:].decode(errors='replace')))
        return
    s['base_seed'] = base
    s['name'] = comp['name']
    res['components'].append(s)
    log('[%s] %s: %d runs in %.1fs, %d distinct interleavings, %d steps, probes=%s' % (
        pid, comp['name'], s['runs'], s['wall_s'], s['distinct_interleavings'], s['steps'], json.dumps(s['probes'])))
    if s['errors'] or s['bad_workers']:
        res['errors'].append('%s: %d runs ended without a result (last code %d), %d workers died' % (comp['name'], s['errors'], s['last_error'], s['bad_workers']))
    if s['det_failed']:
        res['errors'].append('%s: %d of %d repeated runs diverged' % (comp['name'], s['det_failed'], s['det_checked']))
    if s['runs'] == 0:
        res['errors'].append('%s: nothing ran' % comp['name'])
    for p in comp.get('need_probes', ()):
        # Reach: a workload that stops exercising what it is for decides nothing.
        if not s['violations'] and not s['probes'].get(p):
            res['errors'].append('%s: condition %r was never reached' % (comp['name'], p))
    if not s['violations']:
        return
    tapes = sorted(f for f in os.listdir(work) if f.startswith('viol_') and f.endswith('.tape'))
    seen = set()
    budget = time.time() + (120 if quick else 600)
    for t in tapes:
        src = os.path.join(work, t)
        key = re.search(r'^key (.*)$', open(src).read(), re.M).group(1)
        if key in seen or time.time() > budget:
            continue
        if key == 'sim-limit':
            res['errors'].append('%s: simulator limit reached' % comp['name'])
            continue
        mini = src + '.min'
        q = subprocess.run([exe, 'minimise', src, '--out', mini, '--secs', '25'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        try:
            m = json.loads(q.stdout.decode(errors='replace').strip().splitlines()[-1])
        except Exception:
            m = {'reproduced': False}
        if not m.get('reproduced'):
            res['errors'].append('%s: violation %s did not reproduce' % (comp['name'], key))
            continue
        # Fresh-process replays must repeat it exactly.
        ok = True
        for _ in range(2):
            q = subprocess.run([exe, 'replay', mini], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
            try:
                rp = json.loads(q.stdout.decode(errors='replace').strip().splitlines()[-1])
            except Exception:
                rp = {}
            ok = ok and q.returncode == 1 and rp.get('key') == m['key'] and rp.get('loghash') == rp.get('expected_loghash')
        if not ok:
            res['errors'].append('%s: replay of %s is not exact' % (comp['name'], key))
            continue
        seen.add(key)
        sym = symbolise(exe, m['msg'])
        v = {'property': pid, 'harness': comp['name'], 'key': m['key'], 'message': m['msg'], 'where': sym, 'notes': m['notes'],
             'minimised': {k: m[k] for k in ('runs', 'workload', 'preemptions', 'picks', 'faults')},
             'found_with': {'VERIF_SEED': SEED, 'base_seed': base}, 'tape': open(mini).read(), 'kind': 'sim'}
        res['violations'].append(v)


def py_component(pid, comp, tier, res):
    """A Python simulation: a script that prints one JSON summary line."""
    work = os.path.join(build.BUILD, 'work', pid + '-' + comp['name'])
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    base = int(hashlib.sha256(('%d/%s/%s' % (SEED, pid, comp['name'])).encode()).hexdigest()[:15], 16)
    quick = tier == 'quick'
    runs = comp['quick_runs'] if quick else comp.get('thorough_runs', comp['quick_runs'] * 40)
    secs = comp.get('quick_secs', 60) if quick else comp.get('thorough_secs', 600)
    script = os.path.join(VERIF, comp['script'])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=build.REPO)
    cmd = [comp.get('python', sys.executable), script, 'search', '--seed', str(base), '--runs', str(runs), '--secs', str(secs),
           '--workers', str(WORKERS), '--outdir', work]
    log('[%s] %s: seed=%d runs<=%d' % (pid, comp['name'], base, runs))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    try:
        s = json.loads(r.stdout.decode().strip().splitlines()[-1])
    except Exception:
        res['errors'].append('%s: no summary (rc=%s): %s' % (comp['name'], r.returncode, (r.stdout + r.stderr)[-3000:].decode(errors='replace')))
        return
    s['base_seed'] = base
    s['name'] = comp['name']
    found = s.pop('violation_files', [])
    res['components'].append(s)
    log('[%s] %s: %d runs in %.1fs, %d distinct interleavings, %d steps, probes=%s' % (
        pid, comp['name'], s['runs'], s['wall_s'], s['distinct_interleavings'], s['steps'], json.dumps(s['probes'])))
    if s.get('errors'):
        res['errors'].append('%s: %s' % (comp['name'], s['errors']))
    if s.get('det_failed'):
        res['errors'].append('%s: %d of %d repeated runs diverged' % (comp['name'], s['det_failed'], s['det_checked']))
    if s['runs'] == 0:
        res['errors'].append('%s: nothing ran' % comp['name'])
    for p in comp.get('need_probes', ()):
        if not s['violations'] and not s['probes'].get(p):
            res['errors'].append('%s: condition %r was never reached' % (comp['name'], p))
    seen = set()
    for f in found:
        v = json.load(open(f))
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        ok = True
        for hs in ('0', '77'):
            q = subprocess.run([comp.get('python', sys.executable), script, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=dict(env, PYTHONHASHSEED=hs))
            try:
                rp = json.loads(q.stdout.decode().strip().splitlines()[-1])
            except Exception:
                rp = {}
            ok = ok and rp.get('key') == v['key'] and rp.get('loghash') == v['loghash']
        if not ok:
            res['errors'].append('%s: replay of %s is not exact' % (comp['name'], v['key']))
            continue
        v.update({'property': pid, 'harness': comp['name'], 'kind': 'py', 'script': comp['script'],
                  'found_with': {'VERIF_SEED': SEED, 'base_seed': base}})
        res['violations'].append(v)


def main():
    pid = sys.argv[1]
    spec = specs.SPECS[pid]
    t0 = time.time()
    res = {'components': [], 'violations': [], 'errors': []}
    try:
        for comp in spec['components']:
            if comp.get('tier') == 'thorough' and TIER != 'thorough':
                continue
            (py_component if comp.get('kind') == 'py' else sim_component)(pid, comp, TIER, res)
    except build.BuildError as e:
        log('BUILD-ERROR: the harness does not build against this tree:\n%s' % e)
        res['errors'].append('build')
    known = [k for k in known_findings() if k['property'] == pid]
    for k in known:
        log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    fresh = []
    for v in res['violations']:
        text = '%s %s %s' % (v['key'], v['message'], v.get('where', ''))
        if any(k.get('harness', v['harness']) == v['harness'] and re.search(k['match'], text) for k in known):
            continue
        fresh.append(v)
    rdir = os.path.join(VERIF, 'replays')
    lines = []
    for v in fresh:
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (pid, h))
        v['replay_with'] = 'python3 tools/replay.py ' + os.path.relpath(path, VERIF)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        log('--- %s\n    %s\n    where: %s\n    minimised: %s' % (v['key'], v['message'][:900], v.get('where', '')[:1500], json.dumps(v.get('minimised', {}))))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    wall = time.time() - t0
    write_evidence(pid, spec, res, fresh, wall)
    for e in res['errors']:
        log('ERROR: ' + e[:4000])
    for line in lines:
        log(line)
    if lines:
        return 1
    if res['errors']:
        return 2
    log('OK property=%s: held on everything explored (%.1fs)' % (pid, wall))
    return 0


def write_evidence(pid, spec, res, fresh, wall):
    cs = res['components']
    runs = sum(c['runs'] for c in cs)
    w = sum(c['wall_s'] for c in cs) or 1e-9
    probes = {}
    for c in cs:
        for k, n in c['probes'].items():
            probes[k] = probes.get(k, 0) + n
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': sum(c['distinct_interleavings'] for c in cs),
        'rule': 'One evaluation is one simulated execution of the real code from one seed, which decides the workload, every '
                'scheduling decision and every fault. Distinct: by hash of the sequence of (thread, kind of synchronisation '
                'event) and context switches (Python components: of the event log); runs that differ in nothing but '
                'addresses or data count once.',
        'samples': [{'component': c['name'], 'base_seed': c['base_seed'], 'runs': c['runs'],
                     'reproduce_run_k': 'tools/replay.py --one %s <seed of run k>' % c['name']} for c in cs],
        'simulated_runs': runs,
        'seeds_per_hour': int(runs / w * 3600),
        'simulated_steps': sum(c['steps'] for c in cs),
        'simulated_time_s': sum(c.get('sim_ns', 0) for c in cs) / 1e9,
        'distinct_interleavings': sum(c['distinct_interleavings'] for c in cs),
        'distinct_states': sum(c.get('distinct_states', 0) for c in cs),
        'context_switches': sum(c.get('switches', 0) for c in cs),
        'preemptions_injected': sum(c.get('preemptions', 0) for c in cs),
        'faults_injected': {k[6:]: n for k, n in sorted(probes.items()) if k.startswith('fault:')},
        'conditions_reached': {k: n for k, n in sorted(probes.items()) if not k.startswith('fault:')},
        'determinism_checked_runs': sum(c.get('det_checked', 0) for c in cs),
        'determinism_failures': sum(c.get('det_failed', 0) for c in cs),
        'components': cs,
        'real_code': spec.get('real', ''),
        'stubs': spec.get('stubs', specs.COMMON_STUBS),
        'new_violations': [{'key': v['key'], 'message': v['message'][:300]} for v in fresh],
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration', 'coverage': cov,
          'assumptions': spec.get('assumptions', specs.COMMON_ASSUMPTIONS), 'wall_s': round(wall, 2), 'violations': len(fresh)}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
