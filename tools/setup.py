#!/usr/bin/env python3
"""Builds every harness of every check (setup_cmd)."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, specs  # noqa: E402

t0 = time.time()
done = set()
rc = 0
for pid, s in specs.SPECS.items():
    for c in s['components']:
        if c.get('kind') == 'py' or c['name'] in done:
            continue
        done.add(c['name'])
        try:
            build.harness(c['name'], c['cc'], c.get('extra', ()), c.get('skip', ()), c.get('libs', ()), c.get('flags', ()), c.get('dirs', ()))
            print('%6.1fs %s' % (time.time() - t0, c['name']), flush=True)
        except build.BuildError as e:
            print('BUILD-ERROR %s\n%s' % (c['name'], e))
            rc = 1
build.prune()
sys.exit(rc)
