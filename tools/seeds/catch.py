#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property against a scratch copy of /repo with the bug applied.
catch.py [-j N] [ids]"""
import sys,os,json,subprocess,glob,time,queue,concurrent.futures as cf
a=sys.argv[1:]; j=2
if '-j' in a: i=a.index('-j'); j=int(a[i+1]); del a[i:i+2]
ids=a or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob('/verif/seeded/*/patch.diff'))
m=json.load(open('/verif/MANIFEST.json'))
q=queue.Queue()
for k in range(j):
    subprocess.run(['rm','-rf',f'/tmp/catch{k}']); subprocess.run(['cp','-a','/repo',f'/tmp/catch{k}']); q.put(k)
def go(id):
    d='/verif/seeded/'+id; prop=json.load(open(d+'/meta.json'))['property']; k=q.get(); r=f'/tmp/catch{k}'
    try:
        subprocess.run(['git','-C',r,'apply',d+'/patch.diff'],check=True); t=time.time()
        cmd=[c for c in m['checks'] if c['property']==prop][0]['quick_cmd']
        p=subprocess.run(cmd,shell=True,cwd='/verif',env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick',VERIF_REPO=r),stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        o=p.stdout.decode(errors='replace'); v=[l for l in o.splitlines() if l.startswith('VIOLATION')]; w=[l for l in o.splitlines() if l.startswith('  ')]
        return id,prop,'CAUGHT' if p.returncode==1 and any(f'property={prop} ' in l for l in v) else f'MISSED rc={p.returncode}',f'{time.time()-t:.0f}s',len(v),(w or [''])[0][:110]
    finally:
        subprocess.run(['git','-C',r,'checkout','-q','--','src'],check=True); q.put(k)
with cf.ThreadPoolExecutor(j) as ex:
    for r in ex.map(go,ids): print(*r,flush=True)
for k in range(j): subprocess.run(['rm','-rf',f'/tmp/catch{k}'])
