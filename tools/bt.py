import sys,time,subprocess,os; sys.path.insert(0,'/verif/tools')
import build
name=sys.argv[1]; import specs
comp=[c for x in specs.SPECS.values() for c in x['components'] if c['name']==name]
dirs=comp[0].get('dirs',()) if comp else ()
if len(sys.argv)>4: dirs=getattr(build,sys.argv[4])
extra=sys.argv[3].split(',') if len(sys.argv)>3 and sys.argv[3] else []
try: e=build.harness(name,name+'.cc',extra,dirs=dirs)
except build.BuildError as x: print(str(x)[:5000]); sys.exit(1)
os.makedirs('/tmp/w/'+name,exist_ok=True)
os.system('rm -f /tmp/w/%s/*'%name)
subprocess.call([e,'search','--seed','7','--runs',sys.argv[2],'--secs','60','--workers','8','--outdir','/tmp/w/'+name,'--maxviol','8'])
import glob
keys=set()
for f in sorted(glob.glob('/tmp/w/%s/viol*.tape'%name)):
    k=[l for l in open(f) if l.startswith('key ')][0]
    if k in keys: continue
    keys.add(k)
    subprocess.call([e,'minimise',f,'--out',f+'.min','--secs','20'])
