#!/usr/bin/env python3
"""mutate.py: first-order mutants of /repo against the simulation, in scratch
copies (an experiment of the development of the checks, not a check).

  mutate.py gen                          lists the mutants
  mutate.py run FILES|@IDS S W OUT       S CPU seconds per mutant, W workers
  mutate.py rep [FILE]                   the survivors (from res.jsonl)
"""
import ast,sys,json,os,shutil,subprocess,threading,collections,time
from concurrent.futures import ThreadPoolExecutor
DIR=os.environ.get('MUTDIR','/tmp/mut')
os.makedirs(DIR,exist_ok=True)
what=sys.argv.pop(1)
if what=='gen':
    import ast,sys,json,os
    R='/repo'
    FILES={'paf/sd.py':'S','paf/server.py':'S','paf/eventloop.py':'S','paf/timer.py':'S','paf/proto.py':'S','paf/daemon.py':'S','paf/xcm.py':'X','paf/client.py':'C','app/pafc':'A','paf/filter.py':'S','paf/props.py':'S'}
    out=[]
    def add(f,s,e,new,src,what,line):
        out.append(dict(file=f,start=s,end=e,new=new,old=src[s:e],what=what,line=line,kind=FILES[f]))
    for f in FILES:
        src=open(os.path.join(R,f)).read()
        lines=src.split('\n'); offs=[0]
        for l in lines: offs.append(offs[-1]+len(l)+1)
        def pos(n): # byte col ~ char col (ascii)
            return offs[n.lineno-1]+n.col_offset, offs[n.end_lineno-1]+n.end_col_offset
        t=ast.parse(src)
        SW={ast.Lt:'<=',ast.LtE:'<',ast.Gt:'>=',ast.GtE:'>',ast.Eq:'!=',ast.NotEq:'==',ast.Is:'is not',ast.IsNot:'is',ast.In:'not in',ast.NotIn:'in'}
        for n in ast.walk(t):
            if isinstance(n,ast.Compare) and len(n.ops)==1:
                a=pos(n.left)[1]; b=pos(n.comparators[0])[0]
                mid=src[a:b]
                if '(' in mid or ')' in mid or '\n' in mid: continue
                add(f,a,b,' '+SW[type(n.ops[0])]+' ',src,'cmp',n.lineno)
                if type(n.ops[0]) in (ast.Lt,ast.GtE,ast.LtE,ast.Gt):
                    inv={ast.Lt:'>',ast.Gt:'<',ast.LtE:'>=',ast.GtE:'<='}[type(n.ops[0])]
                    add(f,a,b,' '+inv+' ',src,'cmpinv',n.lineno)
            elif isinstance(n,ast.BoolOp):
                for x,y in zip(n.values,n.values[1:]):
                    a=pos(x)[1]; b=pos(y)[0]; mid=src[a:b]
                    op='and' if isinstance(n.op,ast.And) else 'or'
                    if op in mid: add(f,a,b,mid.replace(op,'or' if op=='and' else 'and'),src,'bool',n.lineno)
                    # drop one
                s,e=pos(n)
                for x in n.values:
                    a,b=pos(x); add(f,s,e,src[a:b],src,'boolkeep',n.lineno) if '\n' not in src[s:e] else None
            elif isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not):
                s,e=pos(n); a,b=pos(n.operand); add(f,s,e,'bool('+src[a:b]+')',src,'not',n.lineno)
            elif isinstance(n,(ast.If,ast.While)):
                s,e=pos(n.test)
                add(f,s,e,'False',src,'iffalse',n.lineno)
                if isinstance(n,ast.If): add(f,s,e,'True',src,'iftrue',n.lineno)
            elif isinstance(n,ast.BinOp):
                m={ast.Add:'-',ast.Sub:'+',ast.Mult:'/',ast.Div:'*'}.get(type(n.op))
                if m and not isinstance(n.left,ast.Constant) or m and isinstance(getattr(n.left,'value',None),(int,float)):
                    if isinstance(n.op,ast.Add) and any(isinstance(x,(ast.Constant,ast.JoinedStr)) and isinstance(getattr(x,'value',None),str) for x in (n.left,n.right)): continue
                    a=pos(n.left)[1]; b=pos(n.right)[0]
                    if '(' in src[a:b] or ')' in src[a:b] or '\n' in src[a:b]: continue
                    add(f,a,b,' '+m+' ',src,'bin',n.lineno)
            elif isinstance(n,ast.Constant) and type(n.value) in (int,float):
                s,e=pos(n); add(f,s,e,repr(n.value+1 if type(n.value) is int else n.value*2),src,'const',n.lineno)
            elif isinstance(n,ast.Constant) and type(n.value) is bool:
                s,e=pos(n); add(f,s,e,repr(not n.value),src,'boolc',n.lineno)
            elif isinstance(n,(ast.Expr,ast.AugAssign,ast.Delete,ast.Raise,ast.Continue,ast.Break)) or isinstance(n,ast.Assign) and not isinstance(n.targets[0],ast.Name):
                if isinstance(n,ast.Expr) and isinstance(n.value,ast.Constant): continue
                s,e=pos(n)
                if src[s:e].startswith(('log.','self.log','logger.','self.logger')): continue
                add(f,s,e,'pass',src,'del',n.lineno)
            elif isinstance(n,ast.Assign):
                # rebinding of a name assigned before
                pass
            elif isinstance(n,ast.Return) and n.value is not None:
                s,e=pos(n)
                v=src[s:e]
                add(f,s,e,'return None',src,'ret',n.lineno)
            elif isinstance(n,ast.Call):
                for k in n.keywords:
                    if k.arg is None: continue
                    s,e=pos(k)
                    j=e
                    rest=src[e:]
                    if rest.lstrip().startswith(','):
                        j=e+rest.index(',')+1; add(f,s,j,'',src,'kwdel',n.lineno)
                    else:
                        i=src[:s].rstrip()
                        if i.endswith(','): add(f,len(i)-1,e,'',src,'kwdel',n.lineno)
                if len(n.args)==2 and not n.keywords:
                    a=pos(n.args[0]); b=pos(n.args[1])
                    add(f,a[0],b[1],src[b[0]:b[1]]+', '+src[a[0]:a[1]],src,'argswap',n.lineno)
    # compile check
    good=[]
    for m in out:
        src=open(os.path.join(R,m['file'])).read()
        new=src[:m['start']]+m['new']+src[m['end']:]
        if new==src: continue
        try: compile(new,m['file'],'exec')
        except SyntaxError: continue
        good.append(m)
    for i,m in enumerate(good): m['id']=i
    json.dump(good,open(DIR+'/mutants.json','w'))
    import collections
    print(len(good),collections.Counter(m['file'] for m in good),collections.Counter(m['what'] for m in good))
elif what=='run':
    import json,os,shutil,subprocess,sys
    from concurrent.futures import ThreadPoolExecutor
    import threading
    ms=json.load(open(DIR+'/mutants.json'))
    sel=sys.argv[1]; budget=sys.argv[2]; W=int(sys.argv[3]); outf=sys.argv[4]
    done=set()
    if os.path.exists(outf):
        for l in open(outf): done.add(json.loads(l)['id'])
    if sel.startswith('@'):
        ids=set(json.load(open(sel[1:]))); ms=[m for m in ms if m['id'] in ids]
    else: ms=[m for m in ms if m['file'] in sel.split(',') and m['what']!='argswap']
    ms=[m for m in ms if m['id'] not in done]
    loc=threading.local(); lock=threading.Lock(); out=open(outf,'a'); cnt=[0]
    def work(m):
        if not hasattr(loc,'d'):
            with lock: cnt[0]+=1; loc.d=DIR+'/w%d_%d'%(os.getpid(),cnt[0])
            os.makedirs(loc.d); 
            for x in ('paf','app'): shutil.copytree('/repo/'+x,loc.d+'/'+x,ignore=shutil.ignore_patterns('__pycache__'))
        f=loc.d+'/'+m['file']; src=open('/repo/'+m['file']).read()
        open(f,'w').write(src[:m['start']]+m['new']+src[m['end']:])
        try:
            p=subprocess.run(['python3',__file__,'one',m['kind'],budget],env=dict(os.environ,PAF_REPO=loc.d,PYTHONHASHSEED='0'),capture_output=True,text=True,timeout=float(budget)*6+60)
            l=[x for x in p.stdout.split('\n') if x.startswith('[')]
            r=json.loads(l[-1]) if l else ['DIED',p.returncode,p.stderr[-300:]]
        except subprocess.TimeoutExpired: r=['TIMEOUT']
        open(f,'w').write(src)
        with lock:
            out.write(json.dumps(dict(id=m['id'],file=m['file'],line=m['line'],what=m['what'],old=m['old'],new=m['new'],r=r))+'\n'); out.flush()
    with ThreadPoolExecutor(W) as ex: list(ex.map(work,ms))
elif what=='rep':
    import json,sys,collections
    ms={m['id']:m for m in json.load(open(DIR+'/mutants.json'))}
    c=collections.Counter(); 
    f=sys.argv[1] if len(sys.argv)>1 else ''
    for l in open(DIR+'/res.jsonl'):
        d=json.loads(l); c[d['file'],d['r'][0]]+=1
        if d['r'][0]!='KILL' and (not f or d['file']==f):
            src=open('/repo/'+d['file']).read().split('\n')
            print(d['id'],d['file'],d['line'],d['what'],'|',src[d['line']-1].strip()[:70],'|',d['old'][:40].replace('\n',' '),'=>',d['new'][:30],'|',[str(x)[:80] for x in d['r']])
    for k in sorted(c): print(k,c[k])
elif what=='one':
    import sys,os,json,time,resource
    sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    kind=sys.argv[1]; budget=float(sys.argv[2])
    from sim.runner import run_scenario
    from sim import profiles
    PR={'S':['P%02d'%i for i in range(1,21)],'X':['P16','P21','P01','P12','P13','P19','P15'],'C':['P16','P21','P19'],'A':['P21']}[kind]
    PR=os.environ.get('PROPS','').split() or PR
    t0=time.process_time(); n=0; i=0
    while time.process_time()-t0<budget:
        for p in PR:
            if time.process_time()-t0>=budget: break
            scn=profiles.make(p,"1/%d"%i)
            r=run_scenario(scn,5.0); n+=1
            if r.sim.error: print(json.dumps(['ERR',p,i,repr(r.sim.error)[-150:],n])); sys.exit()
            if r.sim.violation:
                v=r.sim.violation; print(json.dumps(['KILL',p,i,v.code,v.tags,n,v.text[:160]])); sys.exit()
            if r.result!='ok': print(json.dumps(['RES',p,i,str(r.result),n])); sys.exit()
        i+=1
    print(json.dumps(['LIVE',n]))
