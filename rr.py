#!/usr/bin/env python3
"""dev helper: rr.py ENTRY [secs] [k=v ...]: run on 8 workers, print a summary, replay one violation of each kind"""
import sys,json,glob,subprocess,os,tempfile,shutil
e=sys.argv[1]; secs=sys.argv[2] if len(sys.argv)>2 else '60'; ps=sys.argv[3:]
d=tempfile.mkdtemp(prefix='rr')
cmd=['/verif/engine/target/release/twsym','/verif/build/h.ll','--entry',e,'--out',d+'/o','--jobs',os.environ.get('J','8'),'--secs',secs,'--max-viol','20']
for p in ps: cmd+=['--param',p]
subprocess.run(cmd,stderr=open(d+'/err','w'))
t={}; inc={}; reach={}; vs=[]
for f in glob.glob(d+'/o*'):
    try: r=json.load(open(f))
    except Exception as x: print('bad',f,x); continue
    for k in ('paths','assumed','checks','proved','float_undecided','steps','queries','cached','linear','sat','unsat','unknown','solver_time'): t[k]=t.get(k,0)+r.get(k,0)
    for k in ('wall','max_query','max_path_condition','vars'): t[k]=max(t.get(k,0),r[k])
    for k,v in r['incomplete'].items(): inc[k]=inc.get(k,0)+v
    for k,v in r['reach'].items(): reach[k]=reach.get(k,0)+v
    vs+=r['violations']
print(t); print('incomplete',inc,'reach',reach,'violations',len(vs))
seen=set()
for v in vs:
    k=(v['kind'],v['msg'],v['site'])
    if k in seen: continue
    seen.add(k)
    open(d+'/rp','w').write(''.join(f'{n} {x}\n' for n,x in v['inputs']))
    p=subprocess.run(['/verif/harness/target/release/h',e],env=dict(os.environ,TWSYM_REPLAY=d+'/rp',TWSYM_PARAMS=','.join(ps)),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=60)
    print(k,v['stack'][:6]); print('   ',' '.join(f'{n}={x}' for n,x in v['inputs'])[:700]); print('   native rc',p.returncode,p.stdout.decode(errors='replace')[-300:].strip().replace('\n',' | '))
shutil.rmtree(d)
