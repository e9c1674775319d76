"""Makes the seeded set of planner runs that the trace specifications judge."""
import random, json, os
import gen
def problem_line(p,cfg):
    d=gen.from8(p); d["e"]="Problem"; d.update(cfg); return json.dumps(d,separators=(",",":"))
def choose(r,strats,kinds,custom=False):
    strat,p=choose_plain(r,strats,kinds,custom)
    if "pomdp" in kinds and strat in("hsvi","frtdp") and r.random()<.06: return strat,gen.make_pomdp(r,"regime")
    if strat not in("rtdp","lrtdp") and not hasattr(p,"custom") and r.random()<.15: gen.skew(p,r)   # (sampled trials would take very long to end)
    return strat,p
def choose_plain(r,strats,kinds,custom):
    strat=r.choice(strats)
    kind=r.choice(kinds)
    if r.random()<.08: return strat,gen.make_horizon(r,kind)
    if custom and kind=="mdp" and r.random()<.06: return strat,gen.make_custom(r)
    if strat in("rtdp","lrtdp"):
        if kind=="mdp": p=gen.make_mdp(r,True) if r.random()<.6 else None
        else: p=gen.make_pomdp(r,"full-proper",S=r.randint(3,6))
        if p is None:
            while True:
                p=gen.make_graph_mdp(r)
                if p.leak: break
    elif strat=="hdp":
        if kind=="mdp": p=r.choice([lambda:gen.make_mdp(r,r.random()<.5),lambda:gen.make_graph_mdp(r)])()
        else: p=gen.make_pomdp(r,r.choice(["full","full-proper","map"]))
    else:
        if kind=="mdp": p=r.choice([lambda:gen.make_mdp(r,r.random()<.5),lambda:gen.make_graph_mdp(r)])()
        else: p=gen.make_pomdp(r,r.choice(["full","map","map","blind","noisy","full-proper"]))
    return strat,p
def options(r,strat,p):
    o={}
    o["searchStrategy"]=strat
    hasL=1
    if strat in("rtdp","lrtdp","hdp"):
        hasL=r.choice([0,0,1])
        o["maintainLowerBound"]=hasL
    if p.kind=="pomdp":
        if strat in("lrtdp","hdp"):
            ub=r.choice(["point","point","sawtooth"])
        else: ub=r.choice(["point","sawtooth","sawtooth"])
        lb=r.choice(["point","maxPlanes","maxPlanes"])
        o["lowerBoundRepresentation"]=lb; o["upperBoundRepresentation"]=ub
        mask=r.choice([1,1,0]); o["useMaxPlanesMasking"]=mask
        o["useMaxPlanesSupportList"]=r.choice([0,1]) if mask else 0
        cache=r.choice([0,1,1]); o["useMaxPlanesCache"]=cache
        o["useMaxPlanesExtraPruning"]=r.choice([0,1]) if cache else 0
        o["useSawtoothSupportList"]=r.choice([0,1])
    else:
        lb=ub="point"
    if r.random()<.25 and hasL: o["runTimeActionSelection"]=r.choice(["lower","upper"])
    if hasattr(p,"ext"): o["useWeakUpperBoundHeuristic"]=r.choice([0,0,1])
    if hasattr(p,"horizon"): o["maxHorizon"]=p.horizon
    o["terminateRegretBound"]=r.choice(["1e-3","0.01","0.1","0.5"])
    return o,dict(strat=strat,lbr=lb,ubr=ub,hasL=hasL,hasU=1,
       rsel=(1 if o.get("runTimeActionSelection")=="upper" or not hasL else 0),
       ep=o.get("useMaxPlanesExtraPruning",0),cache=o.get("useMaxPlanesCache",0),mask=o.get("useMaxPlanesMasking",0),toend=0,
       ssl=o.get("useSawtoothSupportList",0),
       tp=round(float(o["terminateRegretBound"])*gen.VS))
def make_runs(seed,n,outdir,strats=("frtdp","hsvi","rtdp","lrtdp","hdp"),kinds=("mdp","pomdp","pomdp"),
              trials=(1,40),maxupd=120,valsevery=7,queries=1,shards=8,filt=None,tweak=None,toend=0,big=0,bigupd=4000,tracks=0):
    """writes models, problem lines and job files; returns list of (jobfile, tracefile) per shard"""
    r=random.Random(seed); os.makedirs(outdir,exist_ok=True)
    jobs=[[] for _ in range(shards)]; metas=[]
    import track
    tp=track.pool(random.Random(seed+1),tracks,os.path.join(outdir,"tracks")) if tracks else []
    k=0
    while k<n:
        large=k<big
        if big<=k<big+len(tp): strat,p=r.choice(strats),tp[k-big]
        else: strat,p=choose(r,list(strats),list(kinds),custom=True) if not large else (r.choice(strats),gen.make_ring(r))
        o,cfg=options(r,strat,p)
        if tweak: tweak(r,p,o,cfg)
        if filt and not filt(strat,p,o,cfg): continue
        # runs that must reach their target: finitely many beliefs, an interval strategy, an ample budget
        tr_,mu_=trials if not large else (20000,20000),maxupd if not large else bigupd if p.S<1000 else max(bigupd,6000)
        if not large and p.fin and strat in(("frtdp","hsvi") if hasattr(p,"ext") else ("frtdp","hsvi","lrtdp","hdp")) and r.random()<toend:
            cfg["toend"]=1; tr_,mu_=(20000,20000),400000
        sd=r.randrange(1<<30)
        if hasattr(p,"custom"): o["customMDPNumStates"]=p.custom
        m=os.path.join(outdir,"m%04d.%s"%(k,getattr(p,"ext",p.kind))); open(m,"w").write(getattr(p,"text",None) or gen.model_text(p))
        pl=os.path.join(outdir,"m%04d.problem"%k); cfg["run"]=k; open(pl,"w").write(problem_line(p,cfg)+"\n")
        sh=k%shards; tr=os.path.join(outdir,"trace%d.ndjson"%sh)
        args=" ".join("--%s %s"%(a,b) for a,b in o.items())
        jobs[sh].append("%s run %s %d %d %d %d %d solve %s %s"%(tr,pl,sd,r.randint(*tr_),mu_,valsevery,queries,"custom" if hasattr(p,"custom") else m,args))
        metas.append(dict(run=k,fam=p.fam,opts=o,model=m)); k+=1
    out=[]
    for i in range(shards):
        if not jobs[i]: continue
        jf=os.path.join(outdir,"jobs%d"%i); open(jf,"w").write("\n".join(jobs[i])+"\n")
        out.append((jf,os.path.join(outdir,"trace%d.ndjson"%i)))
    return out,metas
