"""build.py OUT MAIN.cc [--tsan|--asan] [--python] [--dirs a,b] [extra repo .cc ...]: builds MAIN.cc with the sources of /repo (the current directory) it needs."""
import concurrent.futures as cf, glob, os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
a = sys.argv[1:]
out, main = a[0], a[1]
work = os.path.dirname(os.path.abspath(out))
gen = os.path.join(work, 'gen')
san, dirs, extra, opt, pyl, pyi = [], [], [], '-O0', [], []
it = iter(a[2:])
for x in it:
    if x == '--tsan': san = ['-fsanitize=thread']
    elif x == '--asan': san = ['-fsanitize=address']
    elif x == '--python':
        pyi = ['-I/usr/include/python3.12', '-iquote', here + '/stubs/py', '-I' + here + '/stubs/py', '-I' + here]
        pyl = ['-lpython3.12']
    elif x == '--dirs': dirs = next(it).split(',')
    elif x.startswith('-'): opt = x
    else: extra.append(x)
base = ['clang++', '-std=gnu++20', opt] + pyi + [ '-w', '-g1', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DABSL_DEFINE_UNQUALIFIED_STATUS_MACROS',
        '-DAROLLA_SHARED_COMPILATION', '-DAROLLA_IMPLEMENTATION', '-include', here + '/stubs/simpb.h',
        '-I' + repo, '-I' + gen, '-I' + here + '/stubs', '-idirafter', here] + san
os.makedirs(gen, exist_ok=True)
protos = [os.path.relpath(p, repo) for p in glob.glob(repo + '/arolla/**/*.proto', recursive=True) if '/examples/' not in p]
subprocess.check_call(['protoc', '--cpp_out=' + gen, '-I.'] + protos)
for p in protos:
    h = os.path.join(gen, p[:-6] + '.pb.h')
    s = open(h).read().replace('.Set(static_cast<ArgT0 &&>(arg0)', '.Set(::sim_pb::S(static_cast<ArgT0 &&>(arg0))')
    s = re.sub(r'(class ContainerProto final :[^{]*\{\n public:\n)',
               r'\1  using MessageLite::ParseFromString;\n  bool ParseFromString(::absl::string_view s) { return ParseFromArray(s.data(), static_cast<int>(s.size())); }\n', s)
    open(h, 'w').write(s)
for d in dirs:
    for p in glob.glob(os.path.join(repo, 'arolla', d, '**/*.cc'), recursive=True):
        if not re.search(r'_test|_benchmark|benchmarks|/testing/|/examples/|riegeli|/golden|operators/all/all\.cc|arolla/io/proto|/s11n/|/serialization/demo/', p):
            extra.append(os.path.relpath(p, repo))
inc = re.compile(r'^\s*#\s*include\s+"((?:arolla|py)/[^"]+)"', re.M)
cc, seen, todo = set(extra), set(), [main] + extra
while todo:
    f = todo.pop()
    if f in seen or not os.path.exists(f): continue
    seen.add(f)
    if f.endswith('.cc') and f != main: cc.add(f)
    for i in inc.findall(open(f, errors='replace').read()):
        if pyl and i.endswith('/pybind11_utils.h'): continue
        if i.endswith('.pb.h'):
            cc.add(os.path.join(gen, i[:-2] + '.cc'))
        else:
            todo.append(i)
            if os.path.exists(i[:-2] + '.cc'): todo.append(i[:-2] + '.cc')
more = True
while more:
    more = False
    for g in list(cc):
        if g.startswith(gen):
            for i in re.findall(r'#include "(arolla/[^"]+\.pb)\.h"', open(g[:-3] + '.h').read()):
                q = os.path.join(gen, i + '.cc')
                if q not in cc: cc.add(q); more = True
jobs = sorted(cc) + [main, here + '/status_impl.cc']
def one(s):
    o = os.path.join(work, re.sub(r'\W', '_', s) + '.o')
    r = subprocess.run(base + ['-c', s, '-o', o], stderr=subprocess.PIPE)
    if r.returncode: sys.exit(s + r.stderr.decode()[:3000])
    return o
with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: objs = list(ex.map(one, jobs))
ab = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
r = subprocess.run(['clang++', '-fuse-ld=bfd'] + san + objs + ['-Wl,--start-group'] + ab + ['-Wl,--end-group', '-lprotobuf'] + pyl + ['-licuuc', '-licudata', '-lpthread', '-ldl', '-lm', '-o', out], stderr=subprocess.PIPE)
if r.returncode: sys.exit(r.stderr.decode()[:3000])
