"""Mutation sweep: python mutate.py gen|tests|checks  (state in /tmp/mut)"""
import ast,copy,sys,os,json,subprocess,shutil,random
from concurrent.futures import ThreadPoolExecutor
FILES=['cobweb.py','cobweb3.py','continuous_value.py','cluster.py','trestle.py','structure_mapper.py','preprocessor.py','utils.py','evaluation.py','dummy.py','visualize.py','datasets.py']
SRC='/repo/concept_formation/'
M='/tmp/mut'
CMP={ast.Lt:[ast.LtE],ast.LtE:[ast.Lt],ast.Gt:[ast.GtE],ast.GtE:[ast.Gt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is],ast.In:[ast.NotIn],ast.NotIn:[ast.In]}
BIN={ast.Add:ast.Sub,ast.Sub:ast.Add,ast.Mult:ast.Div,ast.Div:ast.Mult,ast.Pow:ast.Mult}
def sites(tree):
    out=[]
    def skip_doc(n): return isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)
    for n in ast.walk(tree):
        if isinstance(n,ast.Compare):
            for i,o in enumerate(n.ops):
                for c in CMP.get(type(o),[]): out.append((n,('cmp',i,c)))
        if isinstance(n,ast.BinOp) and type(n.op) in BIN and not(isinstance(n.op,ast.Mod)):
            out.append((n,('bin',BIN[type(n.op)])))
        if isinstance(n,ast.AugAssign) and type(n.op) in BIN: out.append((n,('bin',BIN[type(n.op)])))
        if isinstance(n,ast.BoolOp):
            out.append((n,('bool',)))
            for i in range(len(n.values)): out.append((n,('dropb',i)))
        if isinstance(n,(ast.If,ast.IfExp,ast.While)):
            out.append((n,('cond',True)))if not isinstance(n,ast.While) else None
            out.append((n,('cond',False)))
        if isinstance(n,ast.UnaryOp) and isinstance(n.op,(ast.Not,ast.USub)): out.append((n,('un',)))
        if isinstance(n,ast.Constant) and isinstance(n.value,(int,float)) and not isinstance(n.value,bool): out.append((n,('const',n.value+1)))
        if isinstance(n,ast.Constant) and isinstance(n.value,bool): out.append((n,('const',not n.value)))
        for fld in('body','orelse'):
            b=getattr(n,fld,None)
            if isinstance(b,list):
                for i,s in enumerate(b):
                    if skip_doc(s): continue
                    if isinstance(s,(ast.Assign,ast.AugAssign,ast.Expr,ast.Delete,ast.Raise)): out.append((n,('del',fld,i)))
                    if isinstance(s,ast.Continue): out.append((n,('brk',fld,i,'break')))
                    if isinstance(s,ast.Break): out.append((n,('brk',fld,i,'pass')))
        if isinstance(n,ast.Call):
            if isinstance(n.func,ast.Name) and n.func.id in('sorted','list','dict','deepcopy','copy','set','tuple','float','str') and len(n.args)>=1:
                out.append((n,('unwrap',)))
            if isinstance(n.func,ast.Name) and n.func.id in('max','min'): out.append((n,('mm',)))
            if isinstance(n.func,ast.Attribute) and n.func.attr in('copy','shallow_copy') and not n.args: out.append((n,('unmeth',)))
        if isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice) and isinstance(n.ctx,ast.Load): out.append((n,('unslice',)))
    return out
def apply(n,d):
    k=d[0]
    if k=='cmp': n.ops[d[1]]=d[2]()
    elif k=='bin': n.op=d[1]()
    elif k=='bool': n.op=ast.And() if isinstance(n.op,ast.Or) else ast.Or()
    elif k=='dropb': del n.values[d[1]]
    elif k=='cond': n.test=ast.Constant(d[1])
    elif k=='un': n.op=ast.UAdd() if isinstance(n.op,ast.USub) else n.op; 
    elif k=='const': n.value=d[1]
    elif k=='del': getattr(n,d[1])[d[2]]=ast.copy_location(ast.Pass(),n.body[0] if False else getattr(n,d[1])[d[2]])
    elif k=='brk': getattr(n,d[1])[d[2]]=ast.Break() if d[3]=='break' else ast.Pass()
    elif k=='mm': n.func.id='min' if n.func.id=='max' else 'max'
def gen():
    os.makedirs(M,exist_ok=True); muts=[]
    for f in FILES:
        src=open(SRC+f).read(); base=ast.unparse(ast.parse(src))
        t0=ast.parse(src); ns=len(sites(t0))
        for i in range(ns):
            t=ast.parse(src); n,d=sites(t)[i]
            ln=getattr(getattr(n,d[1])[d[2]],'lineno',0) if d[0] in('del','brk') else n.lineno
            before=ast.unparse(n) if not d[0] in('del','brk') else ast.unparse(getattr(n,d[1])[d[2]])
            if d[0] in('unwrap','unmeth','unslice') or (d[0]=='un' and isinstance(n.op,ast.Not)):
                new=n.args[0] if d[0]=='unwrap' else n.func.value if d[0]=='unmeth' else n.value if d[0]=='unslice' else n.operand
                class R(ast.NodeTransformer):
                    def visit(self,x):
                        if x is n: return new
                        return super().generic_visit(x)
                t=R().visit(t)
            else: apply(n,d)
            try: out=ast.unparse(ast.fix_missing_locations(t)); compile(out,f,'exec')
            except Exception: continue
            if out==base: continue
            muts.append(dict(file=f,line=ln,kind=str(d),before=before[:120],src=out))
    seen=set(); u=[]
    for m in muts:
        h=(m['file'],m['src'])
        if h in seen: continue
        seen.add(h); u.append(m)
    for i,m in enumerate(u): m['id']=i
    json.dump(u,open(M+'/muts.json','w')); print(len(u))
    from collections import Counter; print(Counter(m['file'] for m in u))
def worktree(k,m=None):
    d=M+'/w%d'%k
    if not os.path.isdir(d): subprocess.run(['cp','-a','/repo',d],check=True)
    subprocess.run(['git','-C',d,'checkout','-q','--','.'],check=True)
    if m: open(d+'/concept_formation/'+m['file'],'w').write(m['src'])
    return d
def tests():
    muts=json.load(open(M+'/muts.json')); base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    import queue; q=queue.Queue(); [q.put(k) for k in range(8)]
    done=json.load(open(M+'/tests.json')) if os.path.exists(M+'/tests.json') else {}
    def one(m):
        if str(m['id']) in done: return
        k=q.get()
        try:
            d=worktree(k,m); sh=open('/opt/vp/test.sh').read().replace('cd /repo','cd '+d).replace('-m pytest -q','-m pytest -q -x' if False else '-m pytest -q')
            open(M+'/t%d.sh'%k,'w').write(sh); o=M+'/o%d.json'%k
            try:
                subprocess.run(['bash',M+'/t%d.sh'%k,o],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=90)
                ok=base<=set(json.load(open(o))['passed'])
            except Exception: ok=False
            done[str(m['id'])]=ok
            if len(done)%50==0: json.dump(done,open(M+'/tests.json','w')); print(len(done),sum(done.values()),flush=True)
        finally: q.put(k)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one,muts))
    json.dump(done,open(M+'/tests.json','w')); print(len(done),sum(done.values()))
ORDER={'cobweb.py':'C04 C03 C01 C02 C05 C08 C09 C21 C22 C25 C06 C10 C20 C23 C12 C18 C19 C11 C13 C14',
'cobweb3.py':'C04 C03 C01 C11 C08 C09 C05 C21 C25 C22 C06 C10 C20 C23 C02 C12 C18 C19 C13 C14',
'continuous_value.py':'C07 C04 C08 C11 C01 C25 C20 C23 C14 C06 C22 C18 C19',
'cluster.py':'C18 C06 C20','trestle.py':'C12 C13 C14 C21 C22 C06 C10 C25 C18 C20 C09 C05 C08',
'structure_mapper.py':'C14 C12 C13 C22 C06','preprocessor.py':'C15 C16 C17 C12 C13 C10 C22 C06 C21 C14 C24',
'utils.py':'C07 C23 C08 C09 C04 C18 C19 C17 C11','evaluation.py':'C19 C06','dummy.py':'C22 C21 C06 C19 C25','visualize.py':'C20','datasets.py':'C24'}
def checks():
    muts=json.load(open(M+'/muts.json')); ok=json.load(open(M+'/tests.json'))
    surv=[m for m in muts if ok.get(str(m['id']))]
    if len(sys.argv)>2: surv=[m for m in surv if m['file'] in sys.argv[2:]]
    done=json.load(open(M+'/checks.json')) if os.path.exists(M+'/checks.json') else {}
    import queue; q=queue.Queue(); [q.put(k) for k in range(8)]
    random.Random(0).shuffle(surv)
    def one(m):
        if str(m['id']) in done: return
        k=q.get()
        try:
            d=worktree(k,m); res=None
            for c in ORDER[m['file']].split():
                env=dict(os.environ,VERIF_REPO=d,VERIF_PROCS='1',VERIF_NOSHRINK='1')
                try: r=subprocess.run(['/opt/venv/bin/python','/tmp/vc2/check.py',c,'--factor',os.environ.get('F','0.12')],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=env,timeout=400); rc=r.returncode
                except subprocess.TimeoutExpired: rc='timeout'
                if rc!=0: res=(c,rc,r.stdout[:200] if rc!='timeout' else ''); break
            done[str(m['id'])]=res
            if len(done)%10==0: json.dump(done,open(M+'/checks.json','w')); print(len(done),len(surv),sum(v is None for v in done.values()),flush=True)
        finally: q.put(k)
    with ThreadPoolExecutor(8) as ex: list(ex.map(one,surv))
    json.dump(done,open(M+'/checks.json','w'))
def show():
    muts={str(m['id']):m for m in json.load(open(M+'/muts.json'))}; done=json.load(open(M+'/checks.json'))
    for i,v in sorted(done.items(),key=lambda x:(muts[x[0]]['file'],muts[x[0]]['line'])):
        m=muts[i]
        if v is None or v[1]!=1: print(i,m['file'],m['line'],m['kind'],'|',m['before'].replace('\n',' '),'|',v and v[:2])
globals()[sys.argv[1]]()
