"""Builds simulation harnesses from the current tree of the repository.

Objects are cached in /verif/build by content: first by the contents of every
file a compilation read, then (so that comments cost nothing) by the
preprocessed text.  Nothing is ever taken from the repository's own build.
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CXX = 'clang++'
GEN = os.path.join(BUILD, 'gen')
BASE = ['-std=gnu++20', '-O1', '-g1', '-w', '-fno-omit-frame-pointer',
        '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DABSL_DEFINE_UNQUALIFIED_STATUS_MACROS',
        '-DAROLLA_SHARED_COMPILATION', '-DAROLLA_IMPLEMENTATION', '-DVERIF_SIM=1',
        '-include', os.path.join(VERIF, 'shim/simpb.h'),
        '-I' + REPO, '-I' + GEN, '-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(VERIF, 'sim')]
INSTR = BASE + ['-fsanitize=thread']
RT = ['-std=gnu++20', '-O2', '-g1', '-w', '-fno-exceptions', '-fno-rtti', '-I' + os.path.join(VERIF, 'sim')]
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))


class BuildError(Exception):
    pass


_hash_cache = {}
_lock = threading.Lock()


def _pack(p):
    for a, b in (('$B/', BUILD), ('$V/', VERIF), ('$R/', REPO)):
        if p.startswith(b + '/'):
            return a + p[len(b) + 1:]
    return p


def _unpack(p):
    return {'$B/': BUILD + '/', '$V/': VERIF + '/', '$R/': REPO + '/'}.get(p[:3], p[:3]) + p[3:]


def file_hash(p):
    with _lock:
        if p in _hash_cache:
            return _hash_cache[p]
    try:
        with open(p, 'rb') as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = 'missing'
    with _lock:
        _hash_cache[p] = h
    return h


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def _atomic_write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = '%s.%d.%d.tmp' % (path, os.getpid(), threading.get_ident())
    with open(tmp, 'wb') as f:
        f.write(data)
    os.replace(tmp, path)


def gen_protos():
    protos = sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, 'arolla/**/*.proto'), recursive=True))
    protos = [p for p in protos if '/examples/' not in p]
    key = _sha('v3', *[p + file_hash(os.path.join(REPO, p)) for p in protos])
    stamp = os.path.join(GEN, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(GEN, exist_ok=True)
    r = _run(['protoc', '--cpp_out=' + GEN, '-I' + REPO] + protos, cwd=REPO)
    if r.returncode:
        raise BuildError('protoc: ' + r.stderr.decode())
    for p in protos:
        h = os.path.join(GEN, p[:-6] + '.pb.h')
        s = open(h).read()
        s = s.replace('.Set(static_cast<ArgT0 &&>(arg0)', '.Set(::sim_pb::S(static_cast<ArgT0 &&>(arg0))')
        # protobuf's own string_view overload is newer than the installed one.
        s = re.sub(r'(class ContainerProto final :[^{]*\{\n public:\n)',
                   r'\1  using MessageLite::ParseFromString;\n  bool ParseFromString(::absl::string_view s) { return ParseFromArray(s.data(), static_cast<int>(s.size())); }\n', s)
        open(h, 'w').write(s)
    _atomic_write(stamp, key.encode())


def compile_one(src, flags):
    """Returns the object path for src; compiles only when needed."""
    fl = _sha(*[f.replace(VERIF, '$V').replace(REPO, '$R').replace(BUILD, '$B') for f in flags])
    rel = os.path.relpath(src, VERIF) if src.startswith(VERIF) else os.path.relpath(src, REPO)
    idx = os.path.join(BUILD, 'index', _sha(rel, fl)[:24] + '.json')
    entries = []
    if os.path.exists(idx):
        try:
            entries = json.load(open(idx))
        except ValueError:
            entries = []
    for e in entries:
        if os.path.exists(e['obj']) and all(file_hash(_unpack(p)) == h for p, h in e['deps'].items()):
            return e['obj']
    dep = idx + '.d%d' % threading.get_ident()
    os.makedirs(os.path.dirname(idx), exist_ok=True)
    r = _run([CXX] + flags + ['-E', '-P', '-MD', '-MF', dep, '-MT', 'x', src])
    if r.returncode:
        raise BuildError('%s:\n%s' % (src, r.stderr.decode(errors='replace')[:6000]))
    deps = open(dep).read().replace('\\\n', ' ').split(':', 1)[1].split()
    os.unlink(dep)
    deps = [p for p in deps if not p.startswith('/usr/')]
    obj = os.path.join(BUILD, 'obj', _sha(r.stdout, fl, rel)[:32] + '.o')
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + '.%d.%d.o' % (os.getpid(), threading.get_ident())
        r = _run([CXX] + flags + ['-c', src, '-o', tmp])
        if r.returncode:
            raise BuildError('%s:\n%s' % (src, r.stderr.decode(errors='replace')[:6000]))
        os.replace(tmp, obj)
    entries = [e for e in entries if os.path.exists(e['obj'])][-6:]
    entries.append({'obj': obj, 'deps': {_pack(p): file_hash(p) for p in deps}})
    _atomic_write(idx, json.dumps(entries).encode())
    return obj


EVAL_DIRS = ('util', 'memory', 'qtype', 'expr', 'qexpr', 'dense_array', 'array', 'sequence', 'io', 'serving', 'derived_qtype', 'algorithm')
S11N_DIRS = EVAL_DIRS + ('decision_forest', 'objects', 'jagged_shape', 'serialization', 'serialization_base', 'serialization_codecs')
_not_core = re.compile(r'_test|_benchmark|benchmarks|/testing/|/examples/|riegeli|/golden|arolla/expr/operators/all/all\.cc|arolla/io/proto|/s11n/|/demo/')


def core(dirs=EVAL_DIRS):
    """All sources of the named directories of arolla, with their initializers."""
    out = []
    for d in dirs:
        for p in glob.glob(os.path.join(REPO, 'arolla', d, '**/*.cc'), recursive=True):
            r = os.path.relpath(p, REPO)
            if not _not_core.search(r):
                out.append(r)
    return sorted(out)


_inc = re.compile(r'^\s*#\s*include\s+"((?:(?:arolla|py)/[^"]+)|(?:\w+\.h))"', re.M)


def S11N_EXTRA():
    """The codecs outside arolla/serialization_codecs, and the record files."""
    return ['arolla/serialization/riegeli.cc'] + sorted(
        os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, 'arolla/*/s11n/*.cc')) if not p.endswith('_test.cc'))


def closure(roots, extra=(), skip=()):
    """Repository .cc files reachable from the includes of `roots`."""
    seen, out, todo = set(), [], list(roots) + [os.path.join(REPO, e) for e in extra]
    cc = set(os.path.join(REPO, e) for e in extra)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if f.endswith('.cc') and f.startswith(REPO + '/'):
            cc.add(f)
        try:
            s = open(f, errors='replace').read()
        except OSError:
            continue
        for inc in _inc.findall(s):
            if inc in skip:
                continue
            p = os.path.join(REPO, inc)
            if '/' not in inc:  # a header beside a harness
                p = os.path.join(os.path.dirname(f), inc)
                if f.startswith(VERIF) and os.path.exists(p):
                    todo.append(p)
                continue
            if inc.endswith('.pb.h'):
                g = os.path.join(GEN, inc[:-2] + '.cc')
                cc.add(g)
                continue
            if os.path.exists(p):
                todo.append(p)
                c = p[:-2] + '.cc'
                if os.path.exists(c) and os.path.relpath(c, REPO) not in skip:
                    todo.append(c)
    # generated protos include each other
    more = True
    while more:
        more = False
        for g in list(cc):
            if g.startswith(GEN):
                for inc in re.findall(r'#include "(arolla/[^"]+\.pb)\.h"', open(g[:-3] + '.h').read()):
                    q = os.path.join(GEN, inc + '.cc')
                    if q not in cc:
                        cc.add(q)
                        more = True
    return sorted(cc)


def compile_all(jobs):
    """jobs: list of (src, flags) -> objects; raises BuildError with all errors."""
    objs, errs = {}, []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, s, f): s for s, f in jobs}
        for fu in concurrent.futures.as_completed(futs):
            try:
                objs[futs[fu]] = fu.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError('\n'.join(errs[:3]))
    return [objs[s] for s, _ in jobs]


ABSL = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))


def harness(name, cc, extra=(), skip=(), libs=(), flags=(), dirs=()):
    """Builds /verif/build/bin/<name> and returns its path."""
    gen_protos()
    if dirs:
        extra = list(extra) + core(dirs)
    hsrc = os.path.join(VERIF, 'harness', cc)
    srcs = closure([hsrc], extra, skip)
    inst = INSTR + list(flags)
    jobs = [(hsrc, inst)] + [(s, BASE if s.startswith(GEN) else inst) for s in srcs]
    jobs.append((os.path.join(VERIF, 'sim/shim.cc'), inst))
    jobs.append((os.path.join(VERIF, 'sim/simrt.cc'), RT))
    objs = compile_all(jobs)
    cmd = [CXX, '-no-pie', '-static-libstdc++', '-static-libgcc', '-rdynamic', '-fuse-ld=bfd'] + objs
    cmd += ['-Wl,--start-group'] + ABSL + ['-Wl,--end-group']
    cmd += ['-lprotobuf'] + list(libs) + ['-licuuc', '-licudata', '-lpthread', '-ldl', '-lm']
    exe = os.path.join(BUILD, 'bin', name)
    key = _sha(*cmd)
    stamp = exe + '.key'
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + '.tmp%d' % os.getpid()
    r = _run(cmd + ['-o', tmp])
    if r.returncode:
        raise BuildError('link %s:\n%s' % (name, r.stderr.decode(errors='replace')[:8000]))
    os.replace(tmp, exe)
    _atomic_write(stamp, key.encode())
    return exe


def prune(limit=1500 << 20):
    """Drops the oldest cached objects beyond `limit` bytes."""
    d = os.path.join(BUILD, 'obj')
    fs = []
    for n in os.listdir(d) if os.path.isdir(d) else ():
        st = os.stat(os.path.join(d, n))
        fs.append((st.st_mtime, st.st_size, os.path.join(d, n)))
    total = sum(f[1] for f in fs)
    for _, size, p in sorted(fs):
        if total <= limit:
            break
        os.unlink(p)
        total -= size
