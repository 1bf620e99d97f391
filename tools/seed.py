"""seed.py new ID: lays the demo kit into /verif/seeded/ID.
seed.py try ID [--nocheck]: checks the bug in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def kit(d):
    os.makedirs(d, exist_ok=True)
    k = os.path.join(V, 'tools/demokit')
    for f in ('build.py', 'sim.h'):
        shutil.copy(os.path.join(k, f), d)
    shutil.rmtree(os.path.join(d, 'stubs'), ignore_errors=True)
    shutil.copytree(os.path.join(V, 'shim'), os.path.join(d, 'stubs'))
    shutil.copy(os.path.join(V, 'sim/shim.cc'), os.path.join(d, 'status_impl.cc'))


def run(cmd, cwd, **kw):
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode(errors='replace'), time.time() - t


def main():
    op, id = sys.argv[1:3]
    d = os.path.join(V, 'seeded', id)
    if op == 'new':
        kit(d)
        return
    meta = json.load(open(os.path.join(d, 'meta.json')))
    s = '/tmp/seedtry-%s-%d' % (id, os.getpid())
    shutil.rmtree(s, ignore_errors=True)
    ok = True
    try:
        subprocess.check_call(['cp', '-a', '/repo', s])
        demo = s + '-demo'
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        rc, out, t = run(['bash', demo + '/demo.sh'], s)
        print('demo clean: %d (%.0fs) %s' % (rc, t, out[-600:] if rc else '')); ok &= rc == 0
        subprocess.check_call(['git', '-C', s, 'apply', os.path.join(d, 'patch.diff')])
        rc, out, t = run(['bash', demo + '/demo.sh'], s)
        print('demo with bug: %d (%.0fs) %s' % (rc, t, out[-400:])); ok &= rc != 0
        if '--nocheck' not in sys.argv:
            env = dict(os.environ, VERIF_REPO=s, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
            for p in [meta['property']] + [x for x in sys.argv[3:] if not x.startswith('-')]:
                rc, out, t = run([sys.executable, os.path.join(V, 'tools/check.py'), p], V, env=env)
                tail = [l for l in out.splitlines() if l][-4:]
                print('check %s: %d (%.0fs)\n    %s' % (p, rc, t, '\n    '.join(tail))); ok &= rc == 1
    finally:
        shutil.rmtree(s, ignore_errors=True)
        shutil.rmtree(s + '-demo', ignore_errors=True)
    print(id, 'OK' if ok else 'NOT OK')


main()
