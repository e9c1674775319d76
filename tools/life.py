"""Runs of the real front end (solve, benchmark) under scripted clocks and interrupts (LifeTrace.tla)."""
import os, re, json, random, subprocess
import gen, lib, runs, policy
ZSPY=os.path.join(lib.B,"zspy"); NONE=-2100000000
def fx(x):
    x=float(x); return 2000000001 if x!=x else max(-2000000000,min(2000000000,round(x*gen.VS)))
LINES=[(r"reading model file","reading"),(r"calculating initial heuristics","heur"),(r"finished initialization","ready"),
 (r"(\d+) calls to solver, bounds \[\s*(\S+) \.\.\s+(\S+)\], regret <= (\S+)","progress"),(r"terminating run; reached target regret bound of (\S+)","target"),
 (r"terminating run; passed specified timeout of (\S+) seconds","timeout"),(r"terminating run; caught SIGINT","interrupt"),
 (r"terminating run; performed specified number of backups \((\d+)\)","backups"),(r"\(not outputting policy\)","nopol"),
 (r"writing policy to '(.*)'","writing"),(r"finishing logging","finish"),(r"done$","done")]
def line(t):
    d=dict(e="Line",kind="other")
    if t.startswith("*** received SIGINT"): d["kind"]="heard"
    elif t.startswith("batchRewards:"): d.update(kind="batch")
    m=re.match(r"^(\d{5}) +(.*)$",t)
    if m:
        for pat,k in LINES:
            q=re.match(pat,m.group(2))
            if not q: continue
            d.update(kind=k,sec=int(m.group(1)))
            if k=="progress": d.update(calls=int(q.group(1)),l=fx(q.group(2)),u=fx(q.group(3)),reg=fx(q.group(4)))
            elif k in("target","timeout","interrupt","backups"):
                d.update(kind="why",why=k,lim={"target":lambda:round(float(q.group(1))*gen.VS),"timeout":lambda:round(float(q.group(1))*1000),"backups":lambda:int(q.group(1)),"interrupt":lambda:-1}[k]())
            elif k=="writing": d["file"]=q.group(1)
            break
    return d
def planes(path):
    """planes of a policy file, or None if it is not a complete one"""
    if not os.path.exists(path): return None
    if not open(path).read().rstrip().endswith("}"): return None
    try: tk=policy.tokens(path)
    except ValueError: return None
    n=None; pl=[]
    for t in tk:
        if t["k"]=="numPlanes": n=t["n"]
        elif t["k"]=="action": pl.append(dict(a=t["n"],m=[],x=[],want=None))
        elif t["k"]=="numEntries": pl[-1]["want"]=t["n"]
        elif t["k"]=="entry": pl[-1]["m"].append(t["n"]); pl[-1]["x"].append(t["v"])
        elif t["k"]=="bad": return None
    if n!=len(pl) or any(p["want"]!=len(p["m"]) for p in pl): return None
    return pl
def rows(path,conv,n):
    out=[]; head=0
    if not os.path.exists(path): return out,head
    for l in open(path):
        if l.startswith("#"): head=1; continue
        w=l.split()
        if not w: continue
        try: out.append([c(x) for c,x in zip(conv,w)] if len(w)==n else [-1]*n)
        except ValueError: out.append([-1]*n)
    return out,head
ms=lambda x: round(float(x)*1000)
def finish(job):
    """events, printed lines and files of one run, in order"""
    d,out,prob,exp=job["dir"],job["out"],job["prob"],job["expect"]
    evs=[json.loads(l) for l in open(out) if l.strip().endswith("}")]
    raw=open(out+".log","rb").read(); lines=[]; o=0
    for b in raw.split(b"\n"):
        t=b.decode("latin1")
        if t: lines.append((o,t))
        o+=len(b)+1
    res=[prob]; i=0; batches=[]
    for e in evs:
        while i<len(lines) and lines[i][0]<e["off"]:
            q=line(lines[i][1])
            if q["kind"]=="batch": batches.append([float(x) for x in lines[i][1].split()[1:]])
            if q["kind"]!="other": res.append(q)
            i+=1
        del e["off"]; res.append(e)
    pf=os.path.join(d,prob["file"]); pl=planes(pf); S=prob["S"]
    P=dict(e="Pol",there=int(os.path.exists(pf)),ok=int(pl is not None),bak=int(os.path.exists(pf+".bak")),bakok=int(planes(pf+".bak") is not None))
    P["planes"]=[dict(al=[dict(zip(p["m"],p["x"])).get(s,0) for s in range(S)],m=[int(s in p["m"]) for s in range(S)]) for p in (pl or [])]
    res.append(P)
    if prob["cmd"]=="benchmark":
        r,h=rows(os.path.join(d,"bounds.plot"),[ms,fx,fx,int,int,int,int],7); res.append(dict(e="Bounds",rows=r,head=h))
        r,h=rows(os.path.join(d,"inc.plot"),[ms,fx,fx,fx,fx],5)
        res.append(dict(e="Inc",rows=r,means=[fx(sum(b)/len(b)) for b in batches],mins=[fx(min(b)) for b in batches],maxs=[fx(max(b)) for b in batches],
                        goals=goals(d) if prob["all"] else [-1,0]))
        if prob["stor"]:
            r,h=rows(os.path.join(d,"storage.log"),[ms]+[int]*9,10); res.append(dict(e="Stor",rows=r,np=len(pl) if pl is not None and prob["pol"] else -1))
    if exp: res.append(exp)
    return res
def goals(d):
    """trials logged in the simulation log, how many of them ended"""
    f=os.path.join(d,"sim.plot"); t=open(f).read().split("\n") if os.path.exists(f) else []
    return [t.count("terminated"),t.count(">>> begin")]
def execute(jobs,w,shards=8):
    """runs the jobs, returns one trace per shard"""
    def one(s):
        js=jobs[s::shards]; jf=os.path.join(w,"spy%d"%s)
        open(jf,"w").write("".join("%s\t%s\t%s\t%s\n"%(j["out"],j["dir"],j["script"],j["args"]) for j in js))
        r=subprocess.run([ZSPY,jf],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,env=dict(os.environ,ZV_SEED=str(s+1)),timeout=800)
        if r.returncode: raise lib.CheckError("spy harness failed: %s"%r.stderr[-300:])
        tr=os.path.join(w,"trace%d.ndjson"%s)
        with open(tr,"w") as f:
            for j in js:
                for e in finish(j): f.write(json.dumps(e,separators=(",",":"))+"\n")
        return (None,tr)
    return lib.pmap(one,[s for s in range(shards) if jobs[s::shards]])
TIMES=[100,200,900,1300,2600,4100,8000,10700,25000]
def job(r,k,w,cmd,p,o,cfg,script,lim,pol,expect=None,extra="",torn=0):
    d=os.path.join(w,"r%05d"%k); os.makedirs(d)
    m=os.path.join(d,"m."+p.kind); open(m,"w").write(gen.model_text(p))
    hasL=cfg["hasL"]; canpol=int(bool(hasL and cfg["lbr"]=="maxPlanes")); file="out.policy" if pol in("","none") else pol
    want=int(canpol and pol!="none" and (cmd=="solve" or pol!=""))
    T,N,tp,tl,tu=lim["T"],lim["N"],lim["p"],lim.get("tl",NONE),lim.get("tu",NONE); o=dict(o)
    o["terminateRegretBound"]=tp; o["terminateNumBackups"]=N
    if T or r.random()<.5: o["terminateWallclockSeconds"]="%g"%(T/1000.) if T else r.choice(["-1","0"])
    if cmd=="benchmark":
        o.update(evaluationFirstEpochWallclockSeconds="%g"%(lim["first"]/1000.),evaluationEpochsPerMagnitude=lim["ticks"],
                 evaluationTrialsPerEpoch=r.choice([1,3,30,37]),evaluationMaxStepsPerTrial=r.choice([5,15]),simulationTracesToLogPerEpoch=0 if torn else r.choice([0,1,-1,-1]))
        if tl!=NONE: o["terminateLowerBoundValue"]="%g"%(tl/1e6)
        if tu!=NONE: o["terminateUpperBoundValue"]="%g"%(tu/1e6)
        if lim["stor"]: o["storageOutputFile"]="storage.log"
        if r.random()<.3: o["useTimeWithoutHeuristic"]=0
    if pol: o["policyOutputFile"]=pol
    args="%s %s %s"%(cmd,m," ".join("--%s %s"%x for x in o.items()))
    b=gen.from8(p)
    prob=dict(e="Problem",run=k,cmd=cmd,T=T,N=N,p=round(float(tp)*gen.VS),first=lim.get("first",0),ticks=lim.get("ticks",1),unit=lim.get("unit",100),tl=tl,tu=tu,
              two=bool(hasL),lb=bool(hasL),ub=True,pol=want,file=file,stor=lim.get("stor",0),strict=cfg["strat"] in("frtdp","hsvi"),S=p.S,all=int(o.get("simulationTracesToLogPerEpoch")==-1),b0=b.get("b0",[]),torn=torn)
    return dict(out=os.path.join(d,"ev"),dir=d,script=script,args=args+extra,prob=prob,expect=expect),dict(run=k,fam=p.fam,opts=dict(script=script,args=args),model=m)
def pick(r):
    while True:
        strat,p=runs.choose(r,["frtdp","hsvi","frtdp","hsvi","rtdp","lrtdp","hdp"],["mdp","pomdp","pomdp"])
        if hasattr(p,"horizon"): continue
        o,cfg=runs.options(r,strat,p); o.pop("terminateRegretBound")
        return p,o,cfg
def limits(r,cmd,unit):
    T=r.choice([0,0,50*r.randint(1,8)*2+50,r.randint(1,9)*1000+unit//2,r.randint(10,60)*1000+unit//2])
    if cmd=="benchmark" and not T: T=r.choice([0,90000+unit//2])
    d=dict(T=T,N=r.choice([-1,-1,-1,0,1,r.randint(2,40),r.randint(40,300)]),p=r.choice(["1e-3","0.01","0.1","0.5"]),unit=unit)
    if cmd=="benchmark":
        d.update(first=r.choice([unit//2,unit+unit//2,2000+unit//2,7000+unit//2]),ticks=3 if unit==1000 else r.choice([1,2]),stor=r.choice([0,1]))
        if r.random()<.2: d["tl"]=r.choice([-5,0,2,5])*10**6+500000
        if r.random()<.2: d["tu"]=r.choice([-5,0,2,5,10])*10**6+500000
    return d
def real(seed,n,w,cmd,first=0):
    r=random.Random(seed); jobs=[]; metas=[]
    for k in range(first,first+n):
        p,o,cfg=pick(r); unit=r.choice([100,1000]) if cmd=="benchmark" else 100
        lim=limits(r,cmd,unit); L=[x for x in TIMES if x%unit==0]+[unit]
        sc=["R%d"%(unit*r.choice([0,2,7])),"I%d"%(unit*r.choice([0,3,12,110])),"C%d"%r.choice([40,60])]
        for i in range(r.randint(0,30)):
            s="n" if cmd=="benchmark" or r.random()<.93 else r.choice("btv")
            sc.append("%d%s%s"%(r.choice(L),"r",s))
        pol=r.choice(["","none","p.policy","my-out"])
        j,m=job(r,k,w,cmd,p,o,cfg,",".join(sc),lim,pol); jobs.append(j); metas.append(m)
    return jobs,metas
def wide(r):
    """a model whose initial bounds are far apart: two states that only noise tells apart"""
    p=gen.make_pomdp(r,"noisy",S=2,A=3,disc=.75); p.O=2; p.b0=[4,4]; p.fam="two-doors"; p.fin=0
    for a in range(3):
        for s in range(2): p.T[a][s]=[8*(s==0),8*(s==1)] if a==0 else [4,4]; p.Ob[a][s]=[4,4] if a else [7,1] if s==0 else [1,7]
    p.R=[[-1,-r.randint(40,90),10],[-1,10,-r.randint(40,90)]]
    return p
def torn(seed,n,w,first):
    """the policy file cut short by a file size limit during a benchmark"""
    r=random.Random(seed); jobs=[]; metas=[]
    for k in range(first,first+n):
        p=gen.make_pomdp(r,"noisy"); o=dict(searchStrategy=r.choice(["hsvi","frtdp"])); cfg=dict(strat=o["searchStrategy"],hasL=1,lbr="maxPlanes")
        sc=("F%d,C8,100rn,1300rn,16000rn,180000rn"%r.choice(range(1650,4200,50)) if r.random()<.5 else
            "X%d,C8,100rn,1300rn,16000rn,180000rn"%r.randint(1,26))
        j,m=job(r,k,w,"benchmark",p,o,cfg,sc,dict(T=190050,N=-1,p="1e-3",unit=100,first=50,ticks=1,stor=0),"p.policy",torn=1); jobs.append(j); metas.append(m)
    return jobs,metas
def model_check(w,ncalls,cmds,emit=None,workers=4):
    cfg=os.path.join(w,"mc%d.cfg"%ncalls)
    lib.write_cfg(cfg,["SPECIFICATION Spec","CONSTANTS NCalls = %d"%ncalls," Cmds = {%s}"%",".join('"%s"'%c for c in cmds),
                       "INVARIANTS OneCallLate Interrupted Truthful LastShown Regular LastHeld Sparse Stuck"]+(["INVARIANT Emit"] if emit else [])+["CHECK_DEADLOCK FALSE"])
    if emit and os.path.exists(emit): os.unlink(emit)
    rc,o,st=lib.tlc("LifeEmit" if emit else "LifeMC",cfg,os.path.join(w,"mc%d.meta"%ncalls),workers=1 if emit else workers,env=dict(OUT=emit) if emit else None)
    if rc: raise lib.CheckError("closed model: rc=%d\n%s"%(rc,o[-2000:]))
    return st
def replay(seed,w,ncalls,cmd,limit,first):
    """every finished behaviour of the closed model, on the real program with a scripted solver"""
    f=os.path.join(w,"behaviours"); st=model_check(w,ncalls,[cmd],f)
    B=[]
    for l in open(f):
        l=l.strip()
        if l.startswith('"'): l=l[1:-1].replace('\\"','"')
        B.append(json.loads(l))
    r=random.Random(seed); r.shuffle(B); B=B[:limit]; jobs=[]; metas=[]
    for k,b in enumerate(B):
        k+=first; M=b["M"]; o=dict(searchStrategy=r.choice(["frtdp","hsvi"])); cfg=dict(strat="",hasL=1,lbr="maxPlanes")
        sc=",".join("%d%d%s"%(e["d"],e["fin"],e["sig"]) for e in b["hist"])+",C%d"%(ncalls+2)
        j,m=job(r,k,w,cmd,wide(r),o,cfg,sc,dict(T=M["T"],N=M["N"],p="1e-3",unit=100,first=M["first"],ticks=M["ticks"],stor=0),r.choice(["","none","p"]),
                expect=dict(e="Expect",k=b["k"],why=b["why"],ep=b["ep"]))
        jobs.append(j); metas.append(m)
    return jobs,metas,st
def make(seed,n,w,cmd,ncalls,limit):
    os.makedirs(w,exist_ok=True)
    jobs,metas=real(seed,n,w,cmd)
    j,m,st=replay(seed+1,w,ncalls,cmd,limit,n); jobs+=j; metas+=m
    if cmd=="benchmark":
        j,m=torn(seed+2,max(40,n//5),w,len(jobs)); jobs+=j; metas+=m
    return execute(jobs,w),metas,st
