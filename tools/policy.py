"""Policy-file runs: plan, write, tokenise the file, read back, execute (PolicyTrace.tla)."""
import os, re, json, random
import gen, lib, runs
def tokens(path):
    """the file's content as tokens; comments and layout dropped, nothing interpreted"""
    out=[]
    for line in open(path):
        s=line.strip()
        if not s or s[0]=="#": continue
        m=re.match(r"^(\w+)\s*=>\s*(.*?),?$",s)
        if m:
            k,v=m.group(1),m.group(2)
            if k in("action","numPlanes","numEntries"): out.append(dict(k=k,n=int(v),v=0))
            elif k=="policyType": out.append(dict(k="type" if v!='"MaxPlanesLowerBound"' else None,n=0,v=0))
            elif k in("planes","entries") and v=="[": pass
            else: out.append(dict(k="bad",n=0,v=0))
            continue
        m=re.match(r"^(\d+)\s*,\s*(\S+?),?$",s)
        if m:
            x=float(m.group(2)); out.append(dict(k="entry",n=int(m.group(1)),v=round(x*gen.VS))); continue
        if s in("{","}","},","]","],"): continue
        out.append(dict(k="bad",n=0,v=0))
    return [t for t in out if t["k"]]
def insert_files(trace):
    L=[]
    for line in open(trace):
        if not line.strip(): continue
        L.append(line if line.endswith("\n") else line+"\n")
        if '"e":"Wrote"' in line:
            f=json.loads(line)["file"]
            if f.endswith(".alpha"):
                L.append(open(f+".truth").read())
            else:
                L.append(json.dumps(dict(e="File",toks=tokens(f)),separators=(",",":"))+"\n")
    open(trace,"w").writelines(L)
def options(r,strat):
    o=dict(searchStrategy=strat)
    mask=r.choice([1,1,1,0]); cache=r.choice([0,1,1])
    o.update(useMaxPlanesMasking=mask,useMaxPlanesSupportList=r.choice([0,1]) if mask else 0,useMaxPlanesCache=cache,
             useMaxPlanesExtraPruning=r.choice([0,1]) if cache else 0,lowerBoundRepresentation="maxPlanes",
             upperBoundRepresentation=r.choice(["point","sawtooth"]),terminateRegretBound=r.choice(["1e-3","0.01","0.1","0.5"]))
    if strat in("rtdp","lrtdp","hdp"): o["maintainLowerBound"]=1
    if strat in("lrtdp","hdp"): o["upperBoundRepresentation"]="point"
    return o
def policy_runs(seed,n,w,shards=8):
    r=random.Random(seed); jobs=[[] for _ in range(shards)]; metas=[]
    for k in range(n):
        strat=r.choice(["frtdp","frtdp","hsvi","hsvi","rtdp","lrtdp","hdp"])
        fam=r.choice(["full-proper"]) if strat in("rtdp","lrtdp") else r.choice(["full","map","map","blind","noisy","full-proper"])
        if fam in("blind","noisy") and strat=="hdp": fam="full"
        p=gen.make_pomdp(r,fam); o=options(r,strat)
        m=os.path.join(w,"m%04d.pomdp"%k); open(m,"w").write(gen.model_text(p))
        pl=os.path.join(w,"m%04d.problem"%k)
        open(pl,"w").write(runs.problem_line(p,dict(run=k,strat=strat,ep=o["useMaxPlanesExtraPruning"]))+"\n")
        tr=os.path.join(w,"trace%d.ndjson"%(k%shards)); pf=os.path.join(w,"m%04d.policy"%k)
        cap=160 if p.fin else 40
        trials=r.choice([1,2,3,5,10,20,60] if p.fin else [1,2,3,5])
        jobs[k%shards].append("%s policy %s %d %d %s %d solve %s %s"%(tr,pl,r.randrange(1<<30),trials,pf,cap,m," ".join("--%s %s"%x for x in o.items())))
        metas.append(dict(run=k,fam=p.fam,opts=o,model=m))
    return jobs,metas
def num(r):
    x=r.choice([r.uniform(-100,100),r.randint(-100,100),r.uniform(-1,1),r.uniform(-900,900),r.choice([0,0,-0.5,1e-3,950])])
    return r.choice(["%.6g"%x,"%g"%round(x,3),"%d"%round(x),"%.4e"%x])
def alpha_runs(seed,n,w,jobs,metas):
    """hand-made policy files in both formats, with every layout the format allows"""
    r=random.Random(seed); shards=len(jobs)
    for k in range(n):
        run=10000+k; p=gen.make_pomdp(r,r.choice(["full","map","noisy"]))
        m=os.path.join(w,"a%04d.pomdp"%k); open(m,"w").write(gen.model_text(p))
        pl=os.path.join(w,"a%04d.problem"%k); open(pl,"w").write(runs.problem_line(p,dict(run=run,strat="none",ep=0))+"\n")
        tr=os.path.join(w,"trace%d.ndjson"%(k%shards)); o={}
        np=r.randint(1,6)
        if r.random()<.6:
            pf=os.path.join(w,"a%04d.alpha"%k); o["policyType"]="cassandraAlpha"
            o["useMaxPlanesMasking"]=r.choice([0,1]); o["useMaxPlanesSupportList"]=r.choice([0,1]) if o["useMaxPlanesMasking"] else 0
            planes=[(r.randrange(p.A),[num(r) for _ in range(p.S)]) for _ in range(np)]
            sep=r.choice([" ","  ","\t"]); mid=r.choice(["\n","\n\n"])
            t=mid.join("%d\n%s%s"%(a,sep.join(v),r.choice([""," "])) for a,v in planes)+r.choice(["","\n","\n\n"," \n"])
            open(pf,"w").write(t)
            truth=dict(e="Alpha",pl=[dict(a=a,al=[round(float(x)*gen.VS) for x in v],m=[1]*p.S) for a,v in planes])
            open(pf+".truth","w").write(json.dumps(truth,separators=(",",":"))+"\n")
        else:
            pf=os.path.join(w,"a%04d.policy"%k)
            mask=r.choice([0,1,1]); o["useMaxPlanesMasking"]=mask; o["useMaxPlanesSupportList"]=r.choice([0,1]) if mask else 0
            L=["# comment","{",'  policyType => "MaxPlanesLowerBound",',"  numPlanes => %d,"%np,"  planes => ["]
            for i in range(np):
                full=(i==0) or not mask
                sup=[s for s in range(p.S) if full or r.random()<.6] or [r.randrange(p.S)]
                L+=["    {","      action => %d,"%r.randrange(p.A),"      numEntries => %d,"%len(sup),"      entries => ["]
                L+=["        %d, %s%s"%(s,num(r),"," if j<len(sup)-1 else "") for j,s in enumerate(sup)]
                L+=["      ]","    }"+("," if i<np-1 else "")]
            L+=["  ]","}"]
            if r.random()<.3: L=[x for y in L for x in (y,"")]
            open(pf,"w").write("\n".join(L)+"\n")
        jobs[k%shards].append("%s readpolicy %s %s %s 30 evaluate %s %s"%(tr,pl,m,pf,m," ".join("--%s %s"%x for x in o.items())))
        metas.append(dict(run=run,fam=p.fam,opts=o,model=m))
def make(seed,n,na,w,extra=None):
    os.makedirs(w,exist_ok=True)
    jobs,metas=policy_runs(seed,n,w)
    alpha_runs(seed+1,na,w,jobs,metas)
    if extra: extra(jobs)
    jt=[]
    for i,j in enumerate(jobs):
        if not j: continue
        jf=os.path.join(w,"jobs%d"%i); open(jf,"w").write("\n".join(j)+"\n"); jt.append((jf,os.path.join(w,"trace%d.ndjson"%i)))
    return jt,metas
