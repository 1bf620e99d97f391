#!/usr/bin/env python3
"""Replays a violation: replay.py FILE.json [-v]  (exit 1 when it reproduces),
or re-executes one seed: replay.py --one HARNESS SEED [-v]."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, specs  # noqa: E402


def comp_of(name):
    for s in specs.SPECS.values():
        for c in s['components']:
            if c['name'] == name:
                return c
    sys.exit('unknown harness ' + name)


def exe_of(c):
    return build.harness(c['name'], c['cc'], c.get('extra', ()), c.get('skip', ()), c.get('libs', ()), c.get('flags', ()), c.get('dirs', ()))


def main():
    a = [x for x in sys.argv[1:] if x != '-v']
    v = ['-v'] if '-v' in sys.argv else []
    if a[0] == '--one':
        return subprocess.call([exe_of(comp_of(a[1])), 'one', '--seed', a[2]] + v)
    d = json.load(open(a[0]))
    print('property %s, harness %s: %s' % (d['property'], d['harness'], d['key']))
    if d['kind'] == 'py':
        c = comp_of(d['harness'])
        r = subprocess.run([c.get('python', sys.executable), os.path.join(build.VERIF, c['script']), 'replay', os.path.abspath(a[0])] + v,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=build.REPO))
        return r.returncode
    t = os.path.join(build.BUILD, 'work', 'replay.%d.tape' % os.getpid())
    os.makedirs(os.path.dirname(t), exist_ok=True)
    with open(t, 'w') as f:
        f.write(d['tape'])
    rc = subprocess.call([exe_of(comp_of(d['harness'])), 'replay', t] + v)
    os.unlink(t)
    return rc


if __name__ == '__main__':
    sys.exit(main())
