#!/usr/bin/env python3
"""Plants the bugs defined in bugs*.py in scratch copies of /repo, confirms them, and
writes /verif/seeded/<id>/.  plant.py [-j N] [--notest] ID...  (no ID: those not planted)"""
import sys, os, subprocess, json, shutil, glob, importlib.util, concurrent.futures as cf
HERE=os.path.dirname(os.path.abspath(__file__)); SEEDED='/verif/seeded'
BUGS={}
for f in sorted(glob.glob(HERE+'/bugs*.py')):
    s=importlib.util.spec_from_file_location('b',f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for b in m.BUGS: BUGS[b['id']]=b
ENV=dict(os.environ,HOME='/root',LANG='C.UTF-8',CI='1',TZ='UTC')
def sh(cmd,cwd,env=ENV,t=900):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    return p.returncode,p.stdout.decode(errors='replace')
DEMO='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
exec env REPO="$PWD" node "$here/demo.js"
'''
def build(d): return sh('node node_modules/typescript/bin/tsc -p . --incremental --tsBuildInfoFile dist/.tsbuildinfo',d)
def plant(id,notest,slot):
    b=BUGS[id]; d=f'/tmp/plant{slot}'
    sh(f'git checkout -q -- src && git clean -fdq src',d)
    for f,old,new in b['edits']:
        p=f'{d}/{f}'; s=open(p).read()
        if s.count(old)!=1: return id,f'edit of {f} matches {s.count(old)} times: {old[:60]!r}'
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','diff','--','src'],cwd=d,stdout=subprocess.PIPE).stdout
    rc,o=build(d)
    if rc: return id,'build failed\n'+o[-800:]
    out=f'/tmp/plantdemo{slot}'; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/demo.sh','w').write(DEMO); open(out+'/demo.js','w').write(b['demo'].lstrip())
    if "./fake" in b['demo']: shutil.copy(HERE+'/fake.js',out)
    rc1,o1=sh(f'bash {out}/demo.sh','/repo',t=300); rc2,o2=sh(f'bash {out}/demo.sh',d,t=300)
    if rc1!=0 or rc2==0: return id,f'demo: unpatched {rc1} patched {rc2}\n{o1[-600:]}\n----\n{o2[-600:]}'
    if not notest:
        w=f'/tmp/planttest{slot}'; shutil.rmtree(w,ignore_errors=True); os.makedirs(w+'/tmp')
        base=json.load(open('/opt/vp/BASELINE.json'))['stable']; files="'dist/**/*.spec.js'"; passed=set()
        for attempt in range(3):   # (again, if it's just the load of the machine)
            sh(f"node node_modules/mocha/bin/mocha.js --reporter json --reporter-option output={w}/mocha.json {files}",d,dict(ENV,TMPDIR=w+'/tmp'))
            m=open(w+'/mocha.json').read().replace(d+'/','/repo/'); open(w+'/mocha.json','w').write(m)
            sh(f'python3 /opt/vp/stable_ids.py {w}/mocha.json {w}/tmp && python3 /opt/vp/results.py {w}/out.json mocha:{w}/mocha.json',d)
            passed|=set(x.replace(d+'/','').replace(d.lstrip('/')+'/','') for x in json.load(open(w+'/out.json'))['passed'])
            bad=[x for x in base if x not in passed]
            if not bad: break
            files=' '.join(sorted({x.split('::')[0] for x in bad}))
        shutil.rmtree(w,ignore_errors=True)
        if bad: return id,f'{len(bad)} stable tests fail: {bad[:4]}'
    t=f'{SEEDED}/{id}'; shutil.rmtree(t,ignore_errors=True); shutil.copytree(out,t)
    open(t+'/patch.diff','wb').write(diff)
    json.dump({k:b[k] for k in('property','needs','what_it_breaks')},open(t+'/meta.json','w'),indent=1)
    os.chmod(t+'/demo.sh',0o755)
    return id,'ok: '+o2.strip().splitlines()[-1][:160] if o2.strip() else 'ok'
if __name__=='__main__':
    a=sys.argv[1:]; j=4; notest='--notest' in a
    if '-j' in a: i=a.index('-j'); j=int(a[i+1]); del a[i:i+2]
    ids=[x for x in a if not x.startswith('-')] or [x for x in BUGS if not os.path.exists(f'{SEEDED}/{x}/patch.diff')]
    j=min(j,len(ids))
    for k in range(j):
        subprocess.run(['rm','-rf',f'/tmp/plant{k}']); subprocess.run(['cp','-a','/repo',f'/tmp/plant{k}'])
    build('/repo')
    import queue; q=queue.Queue(); [q.put(k) for k in range(j)]
    def go(id):
        k=q.get()
        try: return plant(id,notest,k)
        except Exception as e: return id,'EXC '+repr(e)
        finally: q.put(k)
    with cf.ThreadPoolExecutor(j) as ex:
        for id,r in ex.map(go,ids): print(id,r,flush=True)
    for k in range(j):
        for n in('plant','plantdemo','planttest'): subprocess.run(['rm','-rf',f'/tmp/{n}{k}'])
