"""Runs of 'zmdp evaluate' on generated models and policies (EvalTrace.tla)."""
import os, re, json, random, subprocess, copy, collections
import gen, lib, runs, policy
def goal_model(r):
    """noisy observations, a goal that is always recognised and always reached in the end"""
    p=gen.make_pomdp(r,"noisy",S=r.randint(3,5)); p.fam="goal"; S=p.S; t=S-1
    p.O+=1
    for a in range(p.A):
        for s in range(S):
            if s==t: p.T[a][s]=gen.unit(S,s); p.Ob[a][s]=gen.unit(p.O,p.O-1)
            else:
                v=gen.comp8(r,S-1,6,2)+[2]; p.T[a][s]=v
                p.Ob[a][s]=gen.comp8(r,p.O-1,8,p.O-1)+[0]
        p.R[t][a]=0
    p.b0=gen.comp8(r,S-1,8,3)+[0]; p.fin=0
    return p
def skewed(r,p):
    """another model with the same actions and observations whose observations can all occur wherever p's can"""
    q=copy.deepcopy(p); blur=r.random()<.5
    for a in range(q.A):
        if blur:        # the planner thinks that everything can be observed everywhere
            for s in range(q.S): q.Ob[a][s]=[x+1 for x in gen.comp8(r,q.O,8-q.O,2)]
        for s in range(q.S):
            if r.random()<.6 and sum(1 for x in q.T[a][s] if x)>1:
                v=list(q.T[a][s]); i=[k for k in range(q.S) if v[k]]
                w=gen.comp8(r,len(i),8-len(i),3); w=[x+1 for x in w]
                for k,x in zip(i,w): v[k]=x
                q.T[a][s]=v
            if r.random()<.6:
                v=list(q.Ob[a][s]); i=[k for k in range(q.O) if v[k]]
                if 1<len(i)<8 and not blur:
                    w=[x+1 for x in gen.comp8(r,len(i),8-len(i),3)]
                    for k,x in zip(i,w): v[k]=x
                    q.Ob[a][s]=v
    return q
def policy_file(r,p,path,kind):
    np=r.randint(1,5); planes=[]
    if kind=="cassandraAlpha":
        planes=[(r.randrange(p.A),{s:policy.num(r) for s in range(p.S)}) for _ in range(np)]
        t="\n".join("%d\n%s\n"%(a," ".join(v[s] for s in range(p.S))) for a,v in planes)
    else:
        L=["# comment","{",'  policyType => "MaxPlanesLowerBound",',"  numPlanes => %d,"%np,"  planes => ["]
        for i in range(np):
            sup=[s for s in range(p.S) if i==0 or r.random()<.6] or [r.randrange(p.S)]
            v={s:policy.num(r) for s in sup}; a=r.randrange(p.A); planes.append((a,v))
            L+=["    {","      action => %d,"%a,"      numEntries => %d,"%len(sup),"      entries => ["]
            L+=["        %d, %s%s"%(s,v[s],"," if j<len(sup)-1 else "") for j,s in enumerate(sup)]
            L+=["      ]","    }"+("," if i<np-1 else "")]
        t="\n".join(L+["  ]","}"])+"\n"
    open(path,"w").write(t)
    return [dict(a=a,al=[round(float(v[s])*gen.VS) if s in v else 0 for s in range(p.S)],m=[1 if s in v else 0 for s in range(p.S)]) for a,v in planes]
LINE=re.compile(r"^sim: \[(.*?)\s*\] (-?\d+) \[(.*?)\s*\] (-?\d+)$")
def belief(txt):
    if "no non-zero" in txt: return []
    return [[int(x.split(":")[0]),round(float(x.split(":")[1])*gen.PS)] for x in txt.split()]
def read_traces(path,bfun=belief):
    """sim.plot -> (table of distinct state texts, trials)"""
    idx={}; tab=[]; trials=[]; junk=0
    def key(t):
        if t not in idx: tab.append(bfun(t)); idx[t]=len(tab)
        return idx[t]
    for line in open(path):
        line=line.rstrip("\n")
        if line==">>> begin": trials.append(dict(steps=[],term=0))
        elif line=="terminated" and trials and not trials[-1]["term"]: trials[-1]["term"]=1
        else:
            m=LINE.match(line)
            if not m or not trials or trials[-1]["term"]: junk+=1; continue
            trials[-1]["steps"].append([key(m.group(1)),int(m.group(2)),key(m.group(3)),int(m.group(4))])
    return tab,trials,junk
def fx(x,s=gen.VS):
    x=float(x)*s
    return round(x) if abs(x)<2.1e9 else None
def numbers(path):
    out=[]
    for t in open(path).read().split():
        try: v=fx(t)
        except ValueError: v=None
        if v is None: return None
        out.append(v)
    return out
def run_one(w,k,seed):
    r=random.Random("eval-%d-%d"%(seed,k)); d=os.path.join(w,"e%04d"%k); os.makedirs(d)
    fam=r.choice(["full","full-proper","full-proper","map","map","noisy","goal","goal","blind"])
    p=goal_model(r) if fam=="goal" else gen.make_pomdp(r,fam)
    if r.random()<.1 and fam!="goal": gen.skew(p,r)
    proper=fam in("full-proper","goal") and p.k==8
    open(d+"/m.pomdp","w").write(gen.model_text(p))
    other=r.random(); q=p; model=dict(planner=0)
    if other<.25 and p.k==8:
        q=skewed(r,p) if r.random()<.85 else gen.make_pomdp(r,"noisy"); model["planner"]=1
        open(d+"/q.pomdp","w").write(gen.model_text(q))
    kind=r.choice(["maxPlanes","maxPlanes","cassandraAlpha"])
    cache=r.choice([0,1]); n=r.choice([1,2,5,12,29,30,31,45,60,61,89,100] if cache else [1,2,5,17,29,30,31,60,75,100,160,300])
    lim=r.choice([1,2,3,5,8,12,20]+([0,0,0,0] if proper else []))
    if lim*n>2500: n=r.choice([30,31,45])
    nt=r.choice([-1,-1,-1,-1,-1,0,1,3,n-1,n,n+4]); nt=max(-1,nt)
    mask=r.choice([1,1,1,0])
    planes=policy_file(r,q,d+"/p.policy",kind)
    if not mask and kind=="maxPlanes":     # without masks every plane applies everywhere
        for x in planes: x["m"]=[1]*q.S
    o=dict(policyInputFile="p.policy",policyType=kind,useEvaluationCache=cache,evaluationTrialsPerEpoch=n,evaluationMaxStepsPerTrial=lim,
           simulationTracesToLogPerEpoch=nt,useMaxPlanesMasking=mask,useMaxPlanesSupportList=r.choice([0,1]) if mask else 0)
    if model["planner"]: o["plannerModel"]="q.pomdp"
    elif r.random()<.1: o["plannerModel"]="m.pomdp"
    args=["evaluate","m.pomdp"]+[x for f,v in o.items() for x in("--"+f,str(v))]
    pr=subprocess.Popen([lib.ZMDP]+args,cwd=d,stdout=open(d+"/out","wb"),stderr=open(d+"/err","wb"),stdin=subprocess.DEVNULL,env=dict(os.environ,ZV_SEED=str(r.randrange(1<<30))))
    try: rc=pr.wait(timeout=60); to=0
    except subprocess.TimeoutExpired: pr.kill(); pr.wait(); rc=0; to=1
    cfg=dict(run=k,n=n,lim=lim,cache=cache,nt=nt,planner=model["planner"],planes=planes,pol="planes",
             qm=json.loads(runs.problem_line(q,{})) if model["planner"] else dict(none=0))
    L=[runs.problem_line(p,cfg)+"\n"]
    def ev(**x): L.append(json.dumps(x,separators=(",",":"))+"\n")
    ended(L,ev,d,rc,to)
    return L,dict(run=k,fam=p.fam,opts=o)
def ended(L,ev,d,rc,to):
    if rc!=0 or to:
        ev(e="Ended",rc=abs(rc),sig=1 if rc<0 else 0,to=to,msg=1 if os.path.getsize(d+"/err")+os.path.getsize(d+"/out")>0 else 0); return
    tab,trials,junk=read_traces(d+"/sim.plot")
    ev(e="Table",st=tab,junk=junk)
    for t in trials: ev(e="Trial",steps=t["steps"],term=t["term"])
    out=open(d+"/out").read(); rep=dict(ok=0,b=[],mean=0,lo=0,hi=0)
    m=re.search(r"^batchRewards: (.*)$",out,re.M); c=re.search(r"^REWARD_MEAN_CONF95MIN_CONF95MAX (\S+) (\S+) (\S+)$",out,re.M)
    if m and c:
        v=[fx(x) for x in m.group(1).split()+list(c.groups())]
        if None not in v: rep=dict(ok=1,b=v[:-3],mean=v[-3],lo=v[-2],hi=v[-1])
    s=numbers(d+"/scores.plot")
    ev(e="Report",sc=s or [],sok=1 if s is not None else 0,**rep)
def tally(w,k,seed):
    """many steps on a small model with few distinct beliefs: only how often every outcome was drawn"""
    r=random.Random("tally-%d-%d"%(seed,k)); d=os.path.join(w,"t%04d"%k); os.makedirs(d)
    p=gen.make_pomdp(r,"full",S=r.randint(2,4)); 
    open(d+"/m.pomdp","w").write(gen.model_text(p)); planes=policy_file(r,p,d+"/p.policy","maxPlanes"); cache=k%2
    o=dict(policyInputFile="p.policy",useEvaluationCache=cache,evaluationTrialsPerEpoch=3000,evaluationMaxStepsPerTrial=12,simulationTracesToLogPerEpoch=-1)
    subprocess.run([lib.ZMDP,"evaluate","m.pomdp"]+[x for f,v in o.items() for x in("--"+f,str(v))],cwd=d,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,
                   stdin=subprocess.DEVNULL,timeout=120,env=dict(os.environ,ZV_SEED=str(r.randrange(1<<30))))
    tab,trials,junk=read_traces(d+"/sim.plot"); c=collections.Counter((s[0],s[1],s[3]) for t in trials for s in t["steps"])
    L=[runs.problem_line(p,dict(run=k,n=3000,lim=12,cache=cache,nt=-1,planner=0,planes=planes,pol="none",qm=dict(none=0)))+"\n"]
    for x in(dict(e="Table",st=tab,junk=junk),dict(e="Tally",q=[list(x)+[v] for x,v in sorted(c.items())])): L.append(json.dumps(x,separators=(",",":"))+"\n")
    return L,dict(run=k,fam=p.fam,opts=o)
def make(seed,n,w,shards=8):
    os.makedirs(w,exist_ok=True); ts=lib.pmap(lambda k: tally(w,100000+k,seed),range(shards))
    rs=lib.pmap(lambda k: run_one(w,k,seed),range(n))
    jt=[]; metas=[m for _,m in rs+ts]
    for i in range(shards):
        tr=os.path.join(w,"eval%d.ndjson"%i)
        with open(tr,"w") as f:
            for k in range(i,n,shards): f.writelines(rs[k][0])
            f.writelines(ts[i][0]); f.write('{"e":"Pool"}\n')
        jt.append((None,tr))
    return jt,metas
