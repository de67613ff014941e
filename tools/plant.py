import os,sys,subprocess,json,importlib.util
sys.path.insert(0,'/tmp/bugs')
from lib import *
OUT='/tmp/newseeded'
spec=importlib.util.spec_from_file_location('b',sys.argv[1]); b=importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
only=set(sys.argv[2:])
open('/tmp/bugs/test_s.sh','w').write(open('/opt/vp/test.sh').read().replace('cd /repo','cd '+R))
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO='''#!/bin/bash
# Fails when the property is broken; run with the repository as cwd.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec timeout 200 /opt/venv/bin/python "$here/demo.py"
'''
for B in b.BUGS:
    if only and B['id'] not in only: continue
    fresh()
    for f,old,new in B['edits']:
        p=R+'/concept_formation/'+f
        s=open(p,newline='').read()
        crlf='\r\n' in s
        if crlf: old,new=old.replace('\n','\r\n'),new.replace('\n','\r\n')
        assert s.count(old)==B.get('n',1),(B['id'],f,s.count(old))
        open(p,'w',newline='').write(s.replace(old,new))
    diff=run('git -C %s diff'%R).stdout
    d='/tmp/bugs/out/'+B['id']; os.makedirs(d,exist_ok=True)
    raw=subprocess.run(['git','-C',R,'diff'],stdout=subprocess.PIPE).stdout
    open(d+'/patch.diff','wb').write(raw)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.py','w').write(B['demo'].lstrip('\n'))
    json.dump(dict(property=B['property'],needs=B['needs'],what_it_breaks=B['what']),open(d+'/meta.json','w'),indent=1)
    r=run('bash /tmp/bugs/test_s.sh /tmp/bugs/o.json')
    try:
        res=json.load(open('/tmp/bugs/o.json'))
        passed=set(res.get('passed',res.get('stable',[])))
    except Exception as e: passed=set()
    miss=base-passed
    good=run('bash %s/demo.sh'%d,cwd='/repo'); bad=run('bash %s/demo.sh'%d,cwd=R)
    ok=not miss and good.returncode==0 and bad.returncode!=0
    print(B['id'],B['property'],'OK' if ok else 'REJECT','tests-missing=%d demo good=%d bad=%d'%(len(miss),good.returncode,bad.returncode))
    if miss: print('   ',sorted(miss)[:3])
    if good.returncode: print(good.stdout[-600:])
    if ok:
        subprocess.run(['rm','-rf',OUT+'/'+B['id']]); subprocess.run(['cp','-r',d,OUT+'/'+B['id']])
        for c in B.get('checks',[B['property']]):
            x=run('VERIF_REPO=%s /tmp/vc2/check.py %s'%(R,c)); 
            print('   check',c,x.returncode,x.stdout.split('\n')[0][:150])
subprocess.run(['rm','-rf',R])
