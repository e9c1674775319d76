"""One function per property; all verdicts come from TLC on the modules in spec/."""
import os, json, random, shutil, collections
import lib, runs
POOL=999999
def save_replay(w,trace,run):
    order,rs=lib.split_runs(trace)
    p=os.path.join(w,"replay-run%d.ndjson"%run); open(p,"w").writelines(rs.get(run,[])); return p
def count_events(traces):
    c=collections.Counter(); prunes=0
    for t in traces:
        for line in open(t):
            if not line.strip(): continue
            i=line.find('"e":"'); c[line[i+5:line.find('"',i+5)]]+=1
            if '"rp":[' in line and '"rp":[]' not in line: c["plane removals"]+=1
            if '"rb":[' in line and '"rb":[]' not in line: c["point removals"]+=1
    return c
def known_keys(prop):
    p=os.path.join(lib.V,"known-findings.txt")
    return {l.split(" ")[2] for l in open(p) if l.startswith("known: property=%s "%prop)}
def judge_all(module,props,tr,metas,w,consts=()):
    """judge one trace; runs rejected for a known reason are set aside so that the rest is still judged"""
    kn=set().union(*[known_keys(p) for p in props]); viol=[]; st=gen=0; cur=tr
    for k in range(40):
        r=lib.judge_trace(module,cur,props,tr+".%s%d"%(module,k),consts)
        st+=r["states"]; gen+=r.get("generated",0)
        if r["ok"]: return viol,st,gen
        stop=False; drop=set()
        for p,why,line,run in r["viol"]:
            m=[m for m in metas if m["run"]==run]
            # a rejection must be reproducible: judge the saved run alone (pooled statistics: the whole file)
            rp=save_replay(w,cur,run) if run!=POOL else cur
            if lib.judge_trace(module,rp,props,rp+".again",consts)["ok"]: raise lib.CheckError("rejection of %s not reproduced alone"%rp)
            key="%s:%s"%(module,why.replace(" ","_"))
            viol.append((key,"%s at line %d of run %d %s"%(why,line,run,json.dumps(m[0]["opts"]) if m else ""),rp))
            drop.add(run); stop=stop or key not in kn
        if stop: return viol,st,gen
        order,rs=lib.split_runs(cur); cur=tr+".rest%d"%k
        with open(cur,"w") as f:
            for run in order:
                if run not in drop: f.writelines(rs[run])
    raise lib.CheckError("too many known findings in %s"%tr)
def trace_check(module,props,w,jt,metas,consts=(),post=None):
    """run the harness jobs, judge every recorded trace with the trace machine"""
    lib.run_jobs([j for j,_ in jt if j])
    for _,tr in jt:
        if post: post(tr)
    rs=lib.pmap(lambda x: judge_all(module,props,x[1],metas,w,consts),jt)
    return [v for r in rs for v in r[0]],sum(r[1] for r in rs),sum(r[2] for r in rs)
def corpus(kind,w,jobs):
    """fixed regression runs, each in a trace of its own: recorded inputs that once failed or reach rare behaviour"""
    d=os.path.join(lib.V,"corpus",kind)
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(".job"):
            jobs.append([open(os.path.join(d,f)).read().strip().replace("@TRACE",os.path.join(w,"trace%d.ndjson"%len(jobs))).replace("@C",d).replace("@W",w)])
ASSUME=["the generator's Problem record is the model written to the model file (both come from one object)",
        "numbers are compared at 1e-6 (values) and 1e-9 (probabilities) fixed point with the tolerances in the specification",
        "the harness logs the program's own data structures without judging them"]
def sample(metas,k=3): return [dict(run=m["run"],family=m["fam"],options=m["opts"]) for m in metas[:k]]
MC_STRATS={"P04":"hsvi frtdp hdp lrtdp","P05":"hsvi frtdp hdp lrtdp rtdp","P06":"lrtdp","P07":"hdp"}
def search_mc(prop,tier,seed,w):
    """the strategies themselves, closed over sampled small MDPs (spec/SearchMC.tla): sizes, number of MDPs, discount, target"""
    st=dict(generated=0,distinct=0); r=random.Random(seed*7919+int(prop[1:])); strats=MC_STRATS[prop].split(); k=len(strats)
    sizes=[(3,2,200//k,500000000,100000),(4,1,400//k,500000000,50000)] if tier=="quick" else \
          [(3,2,4000//k,500000000,100000),(4,1,8000//k,500000000,20000),(4,2,600//k,750000000,30000)]
    for j,(S,A,n,g,tp) in enumerate(sizes):
        K=S*(S+1); picks=sorted({r.randrange(min(K**((S-1)*A),2**31-1)) for _ in range(n)})
        # drawn outcomes multiply the behaviours of the random strategies: they get the small MDPs only
        ss=[s for s in strats if (S,A)!=(4,2) or s not in ("lrtdp","rtdp")]
        if not ss: continue
        cfg=os.path.join(w,"searchmc%d.cfg"%j)
        lib.write_cfg(cfg,["SPECIFICATION Spec","CONSTANTS S = %d"%S," A = %d"%A," G = %d"%g," TP = %d"%tp," Strats = {%s}"%",".join('"%s"'%s for s in ss),
            " Picks = {%s}"%",".join(map(str,picks)),"INVARIANTS Contain Reached Labels Asks Alive","PROPERTIES Tighten KeepLabels Converges","CONSTRAINT Bound","CHECK_DEADLOCK FALSE"])
        rc,o,s=lib.tlc("SearchMC",cfg,os.path.join(w,"searchmc%d.meta"%j),workers=8)
        if rc: raise lib.CheckError("closed model of the strategies: rc=%d\n%s"%(rc,o[-2000:]))
        st["generated"]+=s["generated"]; st["distinct"]+=s["distinct"]
    return st
def search(n_quick,n_thorough,**kw): return bounds(n_quick,n_thorough,_module="SearchTrace",_closed=search_mc,valsevery=0,queries=0,**kw)
def bounds(n_quick,n_thorough,_module="BoundsTrace",_closed=None,big=(0,0),tracks=(0,0),**kw):
    def f(prop,tier,seed,w):
        n=n_quick if tier=="quick" else n_thorough
        jt,metas=runs.make_runs(seed*1000003+int(prop[1:]),n,w,big=big[tier!="quick"],tracks=tracks[tier!="quick"],**kw)
        viol,states,gen=trace_check(_module,[prop],w,jt,metas)
        ev=count_events([t for _,t in jt]); mc=_closed(prop,tier,seed,w) if _closed else dict(distinct=0,generated=0)
        return dict(level="model_checking",violations=viol,assumptions=ASSUME,
            coverage=dict(states=states+mc["distinct"],transitions=max(0,gen-len(jt))+mc["generated"],closed_model_states=mc["distinct"],traces_validated_against_impl=len(metas),
                          events={k:v for k,v in ev.items()},samples=sample(metas)))
    return f
def policies(nq,nt,naq,nat):
    import policy
    def f(prop,tier,seed,w):
        n,na=(nq,naq) if tier=="quick" else (nt,nat)
        jt,metas=policy.make(seed*1000003+int(prop[1:]),n,na,w,extra=lambda jobs: corpus("policy",w,jobs))
        viol,states,gen=trace_check("PolicyTrace",[prop],w,jt,metas,post=policy.insert_files)
        ev=count_events([t for _,t in jt])
        return dict(level="model_checking",violations=viol,assumptions=ASSUME+["the policy file is split into tokens by tools/policy.py; the specification interprets them"],
            coverage=dict(states=states,transitions=max(0,gen-len(jt)),traces_validated_against_impl=len(metas),events=dict(ev),samples=sample(metas)))
    return f
def parsing(nq,nt,malformed):
    import parse
    def f(prop,tier,seed,w):
        n=nq if tier=="quick" else nt
        jt,metas=parse.make(seed*1000003+int(prop[1:]),n,w,malformed=malformed)
        viol,states,gen=trace_check("ParseTrace",[prop],w,jt,metas)
        ev=count_events([t for _,t in jt])
        return dict(level="model_checking",violations=viol,assumptions=["the token list judged by the specification and the text given to the parser are rendered from one object",
            "numbers are compared at 1e-6 fixed point; files whose probability sums lie between the two parsers' tolerances are not judged"],
            coverage=dict(states=states,transitions=max(0,gen-len(jt)),traces_validated_against_impl=len(metas),events=dict(ev),samples=sample(metas)))
    return f
def merge(prop,parts,assumptions,extra=None):
    """one verdict from several generators: parts = [(module, jobs-and-traces, metas)] already made"""
    viol=[]; states=gen=n=0; ev=collections.Counter(); sam=[]
    for module,w,jt,metas in parts:
        v,s,g=trace_check(module,[prop],w,jt,metas)
        viol+=v; states+=s; gen+=max(0,g-len(jt)); n+=len(metas); ev.update(count_events([t for _,t in jt])); sam+=sample(metas,2)
    cov=dict(states=states,transitions=gen,traces_validated_against_impl=n,events=dict(ev),samples=sam); 
    if extra: cov["states"]+=extra["distinct"]; cov["transitions"]+=extra["generated"]; cov["closed_model_states"]=extra["distinct"]
    return dict(level="model_checking",violations=viol,assumptions=assumptions,coverage=cov)
def sub(w,n):
    d=os.path.join(w,n); os.makedirs(d,exist_ok=True); return d
CLI=["the harness runs the program itself in a directory of its own and records its exit status, output and files",
     "arguments and files given to the program and to the specification come from one object"]
def p12(prop,tier,seed,w):
    import parse, misfit, config, track
    k=1 if tier=="quick" else 8; s=seed*1000003+12
    return merge(prop,[("ParseTrace",w,*parse.make(s,4000*k,sub(w,"parse"),malformed=.7)),("MisfitTrace",w,*misfit.make(s,4000*k,sub(w,"misfit"))),
                       ("ConfigTrace",w,*config.make(s,1500*k,sub(w,"config"))),
                       ("TrackTrace",w,*track.make(s,800*k,sub(w,"track"),malformed=.8,cap=6))],CLI)
def p15(prop,tier,seed,w):
    import config
    q=tier=="quick"; s=seed*1000003+15; c=sub(w,"config")
    st=config.model_check(c,1 if q else 2,2 if q else 3)
    return merge(prop,[("ConfigTrace",w,*config.make(s,1500 if q else 15000,c,replay=(1,2) if q else (1,3)))],CLI,st)
def p14(prop,tier,seed,w):
    import evaluate
    return merge(prop,[("EvalTrace",w,*evaluate.make(seed*1000003+14,500 if tier=="quick" else 5000,sub(w,"eval")))],
                 ["the random numbers of a run are seeded by the check (harness/seed.c), so that the recorded runs are reproducible",
                  "trials in which a belief or outcome probability comes within 1e-6 of zero are judged for their form only"])
def p18(prop,tier,seed,w):
    import track
    q=tier=="quick"; d=sub(w,"track")
    st=track.model_check(d,[(2,2,2),(4,1,3)] if q else [(2,3,3),(3,2,3),(5,1,4),(1,5,4)])
    return merge(prop,[("TrackTrace",w,*track.make(seed*1000003+18,500 if q else 6000,d))],
                 ["the map judged and the file given to the program are rendered from one object",
                  "large tracks are explored up to a cap of 60 or 240 states, in an order that goes deep into high speeds"],st)
SPY=["the front end is the real main/zmdp.cc; the clock, the solver's calls and the moments of interrupts are the harness's (harness/spy.cc)",
     "printed lines and log files are split into fields by tools/life.py; the specification interprets them"]
def life_check(cmd,nq,nt,cq,ct):
    import life
    def f(prop,tier,seed,w):
        q=tier=="quick"; d=sub(w,cmd)
        jt,metas,st=life.make(seed*1000003+int(prop[1:]),nq if q else nt,d,cmd,*(cq if q else ct))
        return merge(prop,[("LifeTrace",w,jt,metas)],SPY,st)
    return f
def p17(prop,tier,seed,w):
    import blog
    return merge(prop,[("LogTrace",w,*blog.make(seed*1000003+17,4000 if tier=="quick" else 40000,sub(w,"logs")))],
                 ASSUME+["the log files are split into lines and fields by tools/blog.py; the specification interprets them"])
def p21(prop,tier,seed,w):
    import survey
    return merge(prop,[("SurveyTrace",w,*survey.make(seed*1000003+21,1800 if tier=="quick" else 20000,sub(w,"survey")))],
                 ["the map judged and the file given to the tools are rendered from one object",
                  "the files the tools write are split into fields by tools/survey.py; the specification interprets them",
                  "of surveys with more than 150 states, 100 are judged (each is judged on its own)"])
def p22(prop,tier,seed,w):
    import survey
    return merge(prop,[("PathTrace",w,*survey.make_paths(seed*1000003+22,3000 if tier=="quick" else 40000,sub(w,"paths")))],
                 ["the map judged and the file given to the program are rendered from one object",
                  "maps have at most 16 open hexes; the best value is found by the specification over all paths",
                  "actions and observations are read from the simulation log, which P17 checks"])
def p23(prop,tier,seed,w):
    import algebra
    return merge(prop,[("SparseTrace",w,*algebra.make(seed*1000003+23,4000 if tier=="quick" else 60000,sub(w,"algebra")))],
                 ["values are small whole numbers, so that floating point is exact",
                  "results go to registers that are not operands (the library does not promise otherwise)",
                  "the harness is compiled with address and undefined-behaviour checks"])
CHECKS={
 "P01":bounds(1400,12000,tracks=(80,800)), "P02":bounds(3200,28000,tracks=(160,1600)), "P03":bounds(2400,20000,tracks=(60,600)),
 "P04":search(2400,20000,toend=.6,big=(8,80),tracks=(120,1000)), "P05":search(2400,20000,toend=.2,maxupd=200,big=(16,160),tracks=(80,800)),
 "P06":search(2000,16000,toend=.5,strats=("lrtdp",),maxupd=300,big=(16,160)), "P07":search(2000,16000,toend=.5,strats=("hdp",),maxupd=300,big=(24,200)),
 "P08":policies(900,6000,60,400), "P09":policies(500,4000,500,4000),
 "P10":bounds(2400,20000,tracks=(80,800)), "P11":parsing(8000,60000,.1), "P12":p12, "P13":bounds(3000,25000,tracks=(100,1000)), "P14":p14, "P15":p15, "P16":life_check("solve",1600,20000,(3,1200),(4,20000)), "P17":p17, "P18":p18, "P19":life_check("benchmark",1200,12000,(3,300),(4,4000)), "P20":bounds(3000,25000,queries=4,tracks=(100,1000)), "P21":p21, "P22":p22, "P23":p23,
}
