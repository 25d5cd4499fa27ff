#!/usr/bin/env python3
"""dev: seed.py ID  -- (re)builds seeded/ID/patch.diff from the edits in seedlib/bugs.py and confirms it in a scratch copy
   (builds, passes the stable tests, demo passes before and fails after)."""
import sys,os,subprocess,shutil,json
sys.path.insert(0,'/verif/seedlib')
import importlib; bugs=importlib.import_module('bugs').BUGS
R='/tmp/seedrepo'
def sh(c,cwd=R,**k): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def main():
    ids=sys.argv[1:] or [b for b in bugs]
    for i in ids:
        b=bugs[i]; d='/verif/seeded/'+i
        sh('git checkout -q -- .; git pull -q /repo 2>/dev/null || git fetch -q /repo && git reset -q --hard FETCH_HEAD')
        os.makedirs(d,exist_ok=True)
        shutil.copy('/verif/seedlib/w.py',d+'/w.py')
        open(d+'/demo.py','w').write('from w import *\n'+b['demo'].strip('\n')+'\n')
        open(d+'/demo.sh','w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n'); os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
        for f,old,new in b['edits']:
            s=open(R+'/'+f).read()
            if s.count(old)!=1: print(i,'EDIT does not apply once',f,s.count(old)); break
            open(R+'/'+f,'w').write(s.replace(old,new))
        else:
            df=sh('git diff -U0').stdout.decode(); own=0; f=None
            for l in df.splitlines():
                if l.startswith('--- a/'): f=l[6:]
                if l.startswith('@@'):
                    o=l.split()[1][1:].split(','); a=int(o[0]); n=int(o[1]) if len(o)>1 else 1
                    if n: own+=sum(1 for x in sh('git blame -l -L %d,%d HEAD -- %s'%(a,a+n-1,f)).stdout.decode().splitlines() if x.startswith('^'))
                    else: own+=0.5
            open(d+'/patch.diff','wb').write(sh('git diff').stdout)
            p=sh("sed 's,/repo,%s,g' /opt/vp/build.sh > /tmp/sb.sh; bash /tmp/sb.sh"%R)
            if p.returncode: print(i,'BUILD FAILED',p.stdout.decode()[-1500:]); continue
            m=sh('bash %s/demo.sh'%d,timeout=300)
            sh("sed 's,/repo,%s,g; s,/opt/vp/logs,/tmp/sl,g' /opt/vp/test.sh > /tmp/st.sh; sed 's,/repo,%s,g' /opt/vp/results.py > /tmp/results.py; sed -i 's,/opt/vp/results.py,/tmp/results.py,' /tmp/st.sh; rm -f /tmp/so.json; bash /tmp/st.sh /tmp/so.json"%(R,R))
            base=json.load(open('/opt/vp/BASELINE.json'))['stable']
            try: t=json.load(open('/tmp/so.json'))['passed']
            except Exception as e: t=[]
            br=sorted(set(base)-set(t))
            c=sh('bash %s/demo.sh'%d,cwd='/repo',timeout=300)
            print(i,'(orig lines %s)'%own,'OK' if own and m.returncode and not c.returncode and not br else 'BAD','mut',m.returncode,m.stdout.decode()[-200:].strip(),'| clean',c.returncode,c.stdout.decode()[-200:].strip(),'| broken tests',len(br),br[:3],flush=True)
main()
