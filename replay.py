#!/usr/bin/env python3
"""dev helper: replay.py ENTRY K [params] <result.json : run violation K natively"""
import sys,json,subprocess,os
r=json.load(sys.stdin); v=r['violations'][int(sys.argv[2])]
open('/tmp/rp','w').write(''.join(f'{n} {x}\n' for n,x in v['inputs']))
print(v['kind'],v['msg'],v['stack'][:4])
e=dict(os.environ,TWSYM_REPLAY='/tmp/rp',TWSYM_PARAMS=sys.argv[3] if len(sys.argv)>3 else '')
p=subprocess.run(['/verif/harness/target/release/h',sys.argv[1]],env=e)
print('rc',p.returncode)
