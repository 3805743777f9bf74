"""Mutation campaign: random small source changes, one at a time, in scratch copies; runs the checks anchored at the file."""
import ast, copy, json, os, random, subprocess, sys, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
REPO='/repo'; VER='/tmp/mut/verif'
SKIP=('viewer','render','igibson','habitat','isaac','__init__','plot','plotting','videorec','optional','frames.py')
CMP={ast.Lt:[ast.LtE,ast.GtE],ast.LtE:[ast.Lt,ast.Gt],ast.Gt:[ast.GtE,ast.LtE],ast.GtE:[ast.Gt,ast.Lt],ast.Eq:[ast.NotEq],ast.NotEq:[ast.Eq],ast.Is:[ast.IsNot],ast.IsNot:[ast.Is]}
BIN={ast.Add:[ast.Sub],ast.Sub:[ast.Add],ast.Mult:[ast.Div],ast.Div:[ast.Mult],ast.FloorDiv:[ast.Mult],ast.Pow:[ast.Mult],ast.Mod:[ast.FloorDiv],ast.MatMult:[]}
NAMES={'max':'min','min':'max','argmax':'argmin','argmin':'argmax','mean':'sum','sum':'mean','maximum':'minimum','minimum':'maximum','zeros':'ones','ones':'zeros','any':'all','all':'any','exp':'log','sin':'cos','cos':'sin','floor':'ceil','ceil':'floor','next_state':'state','absorbing':'last','last':'absorbing','low':'high','high':'low'}

def doc(n): return isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant)

def sites(tree):
    out=[]
    for node in ast.walk(tree):
        if isinstance(node,ast.FunctionDef) and node.name.startswith(('render','_render','display','stop','draw_','close')) and node.name!='draw_action': 
            for x in ast.walk(node): x._skip=True
    for node in ast.walk(tree):
        if getattr(node,'_skip',False): continue
        if isinstance(node,ast.Compare) and len(node.ops)==1:
            for o in CMP.get(type(node.ops[0]),[]): out.append((node,'cmp',o))
        elif isinstance(node,(ast.BinOp,ast.AugAssign)):
            for o in BIN.get(type(node.op),[]): out.append((node,'bin',o))
        elif isinstance(node,ast.Constant) and not isinstance(node.value,(str,bytes)) and node.value is not None and node.value is not Ellipsis:
            v=node.value
            if isinstance(v,bool): out.append((node,'const',not v))
            elif isinstance(v,int): out.append((node,'const',v+1)); out.append((node,'const',v-1))
            elif isinstance(v,float): out.append((node,'const',v*2 if v else 1.)); out.append((node,'const',v*1.01))
        elif isinstance(node,ast.UnaryOp) and isinstance(node.op,(ast.Not,ast.USub)): out.append((node,'unary',None))
        elif isinstance(node,ast.BoolOp): out.append((node,'bool',None))
        elif isinstance(node,(ast.If,ast.IfExp)):
            out.append((node,'iftrue',None)); out.append((node,'iffalse',None))
        elif isinstance(node,ast.Attribute) and node.attr in NAMES: out.append((node,'attr',NAMES[node.attr]))
        elif isinstance(node,ast.Call):
            if isinstance(node.func,ast.Attribute) and node.func.attr in ('copy','clone','detach') and not node.args: out.append((node,'dropcall',None))
            if isinstance(node.func,ast.Name) and node.func.id in ('deepcopy',): out.append((node,'dropcall',None))
            if len(node.args)==2 and not isinstance(node.func,ast.Name): out.append((node,'swapargs',None))
            for i,k in enumerate(node.keywords):
                if k.arg: out.append((node,'dropkw',i))
        for f in ('body','orelse'):
            b=getattr(node,f,None)
            if isinstance(b,list) and not isinstance(node,(ast.Module,ast.ClassDef)):
                for i,s in enumerate(b):
                    if isinstance(s,(ast.Assign,ast.AugAssign)) or (isinstance(s,ast.Expr) and isinstance(s.value,ast.Call)):
                        if not getattr(s,'_skip',False): out.append((node,'del',(f,i)))
    return out

def apply(src,k):
    tree=ast.parse(src); ss=sites(tree); node,kind,arg=ss[k]
    ln=getattr(node,'lineno',0); before=ast.unparse(node).split('\n')[0][:110]
    if kind=='cmp': node.ops=[arg()]
    elif kind=='bin': node.op=arg()
    elif kind=='const': node.value=arg
    elif kind=='attr': node.attr=arg
    elif kind=='bool': node.op=ast.Or() if isinstance(node.op,ast.And) else ast.And()
    elif kind=='iftrue': node.test=ast.Constant(True)
    elif kind=='iffalse': node.test=ast.Constant(False)
    elif kind=='swapargs': node.args=node.args[::-1]
    elif kind=='dropkw': before+=' kw '+node.keywords[arg].arg; del node.keywords[arg]
    elif kind=='del':
        f,i=arg; b=getattr(node,f); before='DEL '+ast.unparse(b[i]).split('\n')[0][:110]; ln=b[i].lineno; b[i]=ast.copy_location(ast.Pass(),b[i])
    elif kind in('unary','dropcall'):
        new=node.operand if kind=='unary' else (node.func.value if isinstance(node.func,ast.Attribute) else node.args[0])
        class T(ast.NodeTransformer):
            def visit(self,n):
                if n is node: return new
                return self.generic_visit(n)
        tree=T().visit(tree)
    ast.fix_missing_locations(tree)
    after=before if kind in('unary','dropcall','del') else ast.unparse(node).split('\n')[0][:110]
    return ast.unparse(tree),f'L{ln} {kind}: {before}  ==>  {after}'

props=[]
def prop(id,title,st,over,text,why,files,mech,*a): props.append((id,files))
exec(open(VER+'/tools/props.py').read())
def anchored(f):
    r=[(sum(len(os.listdir('/repo/'+x)) if x.endswith('/') else 1 for x in fs),i) for i,fs in props if any(f==x or (x.endswith('/') and f.startswith(x)) for x in fs)]
    return [i for _,i in sorted(r)]
EXTRA=json.load(open('/tmp/mut/extra.json')) if os.path.exists('/tmp/mut/extra.json') else {}

def run(w,job):
    f,k,desc,src,checks=job
    base=f'/tmp/mut/w{w}'
    dst=f'{base}/{f}'
    orig=open(dst).read()
    open(dst,'w').write(src)
    res={}
    t0=time.time()
    try:
        for c in checks:
            try:
                p=subprocess.run([VER+'/run.sh',c,'--jobs','1'],capture_output=True,text=True,timeout=600,env=dict(os.environ,VERIF_REPO=base,VERIF_FAILFAST='1',VERIF_EVID=f'/tmp/mut/e{w}'))
                res[c]=p.returncode
                if p.returncode==1:
                    v=[l for l in p.stdout.splitlines() if l.startswith('-- ')]; res['why']=v[0][:160] if v else ''
                elif p.returncode not in(0,2): res['err']=(p.stderr or p.stdout)[-200:]
            except subprocess.TimeoutExpired: res[c]='timeout'
            if res[c]==1: break
    finally: open(dst,'w').write(orig)
    rec=dict(file=f,k=k,desc=desc,res=res,killed=1 in res.values(),t=round(time.time()-t0))
    with open('/tmp/mut/results.jsonl','a') as o: o.write(json.dumps(rec)+'\n')

def main(n,seed,pat):
    rnd=random.Random(seed)
    files=[x for x in subprocess.check_output(['git','-C',REPO,'ls-files','mushroom_rl/*.py'],text=True).split() if not any(s in x for s in SKIP) and pat in x]
    cand=[]
    for f in files:
        cs=anchored(f) or EXTRA.get(f,[])
        if not cs: print('no check for',f); continue
        src=open(f'{REPO}/{f}').read()
        ns=len(sites(ast.parse(src)))
        if not ns: continue
        ks=rnd.sample(range(ns),min(ns,max(1,int(round(n*ns**.6)))))
        for k in ks:
            try: new,d=apply(src,k); compile(new,f,'exec')
            except Exception as e: continue
            cand.append((f,k,d,new,cs[:3]))
    rnd.shuffle(cand)
    print(len(cand),'mutants',flush=True)
    if os.environ.get('DRY'): return
    W=int(os.environ.get('W','8'))
    for w in range(W):
        shutil.rmtree(f'/tmp/mut/w{w}',ignore_errors=True)
        shutil.copytree(REPO+'/mushroom_rl',f'/tmp/mut/w{w}/mushroom_rl',ignore=shutil.ignore_patterns('__pycache__'))
    import queue,threading
    q=queue.Queue()
    for c in cand:q.put(c)
    def loop(w):
        while True:
            try:j=q.get_nowait()
            except queue.Empty:return
            try: run(w,j)
            except Exception as e: print('ERR',e,flush=True)
    ts=[threading.Thread(target=loop,args=(w,)) for w in range(W)]
    [t.start() for t in ts];[t.join() for t in ts]
if __name__=='__main__': main(float(sys.argv[1]),int(sys.argv[2]),sys.argv[3] if len(sys.argv)>3 else '')
