"""Invocations of the zmdp command line (ConfigTrace.tla)."""
import os, re, json, random, subprocess, shutil
import lib
POMDP="""discount: 0.95
values: reward
states: 3
actions: 2
observations: 2
start: 0.5 0.5 0
"""+"".join("T: %d : %d : 2 1.0\n"%(a,s) for a in (0,1) for s in (0,1,2))+"".join("O: %d : %d : 0 1.0\n"%(a,s) for a in (0,1) for s in (0,1,2))+"""R: 0 : 0 : * : * 1
R: 1 : 1 : * : * 2
"""
MDP="""discount: 0.95
values: reward
states: 3
actions: 2
start: 1
"""+"".join("T: %d : %d : 2 1.0\n"%(a,s) for a in (0,1) for s in (0,1,2))+"R: 0 : 0 : * 1\nR: 1 : 1 : * 2\n"
RACE="""discount 1.0
errorProbability 0.1
useMaxCost 1
maxCost 100
useErrorIsWind 0
---
@@@@@
@s f@
@@@@@
"""
POLICY="""{
  policyType => "MaxPlanesLowerBound",
  numPlanes => 1,
  planes => [
    {
      action => 0,
      numEntries => 3,
      entries => [
        0, 1,
        1, 0,
        2, 0
      ]
    }
  ]
}
"""
ALPHA="0\n1 0 0\n1\n0 2 0\n"
FILES={"m.pomdp":POMDP,"n.pomdp":POMDP.replace("0.95","1.0"),"m.mdp":MDP,"n.mdp":MDP.replace("0.95","1.0"),"plain.txt":POMDP,"mm.txt":MDP,
       "t.racetrack":RACE,"p.policy":POLICY,"p.alpha":ALPHA,"out.policy":POLICY,"broken.pomdp":POMDP.replace("start","strat"),"wrong.pomdp":MDP}
MODELS={n:dict(kind=k,nodisc=d) for n,k,d in [("m.pomdp","pomdp",False),("n.pomdp","pomdp",True),("m.mdp","mdp",False),("n.mdp","mdp",True),
        ("plain.txt","pomdp",False),("mm.txt","mdp",False),("t.racetrack","racetrack",False)]}
POLICIES={"p.policy":"maxPlanes","p.alpha":"cassandraAlpha","out.policy":"maxPlanes"}
INTV=["-1","3","10","0","7","+4"]; BOOLV=["0","1","1","0","2"]; NUMV=["0.01","1e-2","0.5","1e-3","-1","0","2.5E-1"]; BADV=["x","1.5.2","0x","one","1e","--","3,5","true","","-"]
F=dict(searchStrategy=["frtdp","hsvi","lrtdp","hdp","rtdp","script"],modelType=["-","pomdp","mdp","racetrack","custom"],
  lowerBoundRepresentation=["-","point","maxPlanes","convex"],upperBoundRepresentation=["-","point","sawtooth"],maintainLowerBound=["-","0","1"],
  maintainUpperBound=["1","1","1","0"],policyOutputFile=["-","none","a.pol","b.pol","out.policy"],useFastModelParser=BOOLV,terminateRegretBound=["0.01","1e-2","0.5","1e-3"],
  terminateLowerBoundValue=["-999","-5"],terminateUpperBoundValue=["-999","50"],terminateWallclockSeconds=["-1","0","20","1e1","+30"],terminateNumBackups=["-1","20","60"],
  debugLevel=["0","1"],maxHorizon=["-1","3","10","12"],useWeakUpperBoundHeuristic=["0","1"],runTimeActionSelection=["-","lower","upper"],
  evaluationTrialsPerEpoch=["5","30","60","31"],evaluationMaxStepsPerTrial=["5","20","251"],evaluationFirstEpochWallclockSeconds=["1.0","0.5"],evaluationEpochsPerMagnitude=["10","1"],
  useEvaluationCache=["0","1"],evaluationOutputFile=["inc.plot","i2.plot"],boundsOutputFile=["bounds.plot","bb.plot"],simulationTraceOutputFile=["sim.plot","s2.plot"],
  simulationTracesToLogPerEpoch=["1","0","-1"],scoresOutputFile=["scores.plot","sc2"],useTimeWithoutHeuristic=["0","1"],useMaxPlanesMasking=["1"],
  useMaxPlanesSupportList=["0","1"],useMaxPlanesCache=["1"],useMaxPlanesExtraPruning=["0","1"],useSawtoothSupportList=["0","1"],useLogBackups=["0","1"],
  stateIndexOutputFile=["stateIndex.log","si"],backupsOutputFile=["backups.log","bk"],backupScriptInputDir=["none"],boundValuesOutputFile=["boundValues.log","bv"],
  qValuesOutputFile=["none","q.log"],customMDPNumStates=["5","3"],storageOutputFile=["none","st.plot"],policyInputFile=["out.policy","p.policy","p.alpha","nosuch"],
  policyType=["maxPlanes","cassandraAlpha","bogus"],plannerModel=["-","m.pomdp"],customModel=["none","none","cm"],command=["none","solve"],simulatorModel=["none","m.pomdp","m.mdp","custom"])
WEIGHT=["searchStrategy","policyOutputFile","terminateRegretBound","lowerBoundRepresentation","upperBoundRepresentation","maintainLowerBound","useFastModelParser","maxHorizon","debugLevel","evaluationTrialsPerEpoch","useLogBackups"]*2
SHORT={"-d":None,"-f":None,"-i":"evaluationTrialsPerEpoch","-l":"lowerBoundRepresentation","-o":"policyOutputFile","-p":"terminateRegretBound","-s":"searchStrategy",
       "-t":"terminateWallclockSeconds","-u":"upperBoundRepresentation"}
def field(r): return r.choice(WEIGHT+list(F))
def value(r,f,bad): return r.choice(["x","1.5.2","one","1e","3,5","true","-x","hsvi2","1 2"]).split()[0] if r.random()<bad else r.choice(F[f])
def opt(r,bad):
    if r.random()<.35:
        a=r.choice(list(SHORT)); f=SHORT[a]; return [a] if f is None else [a,value(r,f,bad)]
    f=field(r); return ["--"+(f if r.random()>bad/3 else r.choice(["nosuch",f[:-1],f.lower()+"_",""])),value(r,f,bad)]
CHAIN=[]
def conffile(r,bad):
    L=[]
    if r.random()<.2:                         # aliases defined by each other; now and then in a circle
        k=r.randint(1,7); N=r.sample(["-b","-g","-k","-q","-v","-x","-y","-z2","go"],k)
        for i in range(k): L.append(["alias",N[i]]+(r.choice([[],[],["--debugLevel","1"]])+[N[i+1]] if i<k-1 else [r.choice(N)]+r.choice([[],["-f"]]) if r.random()<.1+bad/2 else r.choice([["--searchStrategy","hsvi"],["-s","lrtdp"],["--policyOutputFile","al.pol"],["-f"]])))
        r.shuffle(L); CHAIN.append(N[0])
    for _ in range(r.choice([0,1,2,4,8])):
        x=r.random()
        if x<.12: L.append([])
        elif x<.24: L.append(["#","searchStrategy","hsvi"])
        elif x<.36: L.append(["alias",r.choice(["-x","-y","go"])]+r.choice([["--searchStrategy","hsvi"],["--policyOutputFile"],["-s","lrtdp"],["-f"],["--maxHorizon","7","-d"],["solve"]]))
        elif x<.36+bad/4: L.append(r.choice([["nosuch","1"],["searchStrategy"],["alias","-z"]]))
        else: f=field(r); L.append([f,value(r,f,bad/2)])
    return L
def invocation(r):
    bad=r.choice([0,0,0,.15,.5]); A=[]; files={}; fast=r.random()
    del CHAIN[:]
    if r.random()<.5:
        name="c%d.conf"%r.randrange(3); files[name]=conffile(r,bad)
        if r.random()<bad/3: name="missing.conf"
        A.append(([r.choice(["-c","--config"])],[name]))
        if r.random()<.1: files["second.conf"]=conffile(r,bad); A.append((["-c"],["second.conf"]))
    cmd=r.choice(["solve","solve","solve","benchmark","bench","evaluate","eval"])
    model=r.choice(["m.pomdp","m.pomdp","m.pomdp","n.pomdp","m.mdp","m.mdp","n.mdp","t.racetrack","custom","plain.txt"])
    if bad and r.random()<.3: model=r.choice(["nosuch.pomdp","broken.pomdp","wrong.pomdp","nosuch","plain.txt","mm.txt","nosuch.mdp","nosuch.racetrack"])
    if cmd in("evaluate","eval"):
        if r.random()<.8: model=r.choice(["m.pomdp","n.pomdp"])
        if r.random()<.6: A.append((["--policyInputFile"],[r.choice(["p.policy","p.alpha"])])); 
        if r.random()<.4: A.append((["--policyType"],[r.choice(["cassandraAlpha","maxPlanes","cassandraAlpha","lspath"])]))
    opts=[opt(r,bad) for _ in range(r.choice([0,1,2,3,5]))]
    if r.random()<.15 and opts: o=list(r.choice(opts)); opts.append([o[0]]+([value(r,o[0].lstrip("-"),0)] if o[0].lstrip("-") in F else o[1:]))
    if model in("plain.txt","mm.txt") and r.random()<.8: opts.append(["--modelType","pomdp" if model=="plain.txt" else "mdp"])
    if model in("n.pomdp","n.mdp") and r.random()<.6: opts.append(["--maxHorizon","8"])
    groups=[[w] for w in ([] if r.random()<.06 else [cmd])]+[[w] for w in ([] if r.random()<.06 else [model])]
    if bad and r.random()<.06: groups.append(["extra"])
    if bad and r.random()<.06: groups.append([r.choice(["-z","--searchStrategy","-s"])])
    if CHAIN and r.random()<.9: groups.append([r.choice(CHAIN)])
    if r.random()<.3 and files: groups.append([r.choice(["-x","-x","-y","go"])]+r.choice([[],[],["v.pol"]]))
    # command and model keep their order; options anywhere
    pos=[g for g in groups]; seq=list(pos)
    for o in opts+[list(sum(map(list,a),[])) for a in A]:
        seq.insert(r.randint(0,len(seq)),o)
    if r.random()<.05: seq.insert(r.randint(0,len(seq)),["--"])
    if r.random()<.02: seq.insert(r.randint(0,len(seq)),[r.choice(["-h","--help","--version"])])
    if r.random()<.03: seq.insert(r.randint(0,len(seq)),["--genConfig","gen.conf"])
    special={"-c","--config","--genConfig","-h","--help","--version"}
    args=[]
    for g in seq:
        if len(g)>1 and r.random()<.1 and not special&set(g): args.append(list(g))   # one argument containing blanks
        else: args+=[[w] for w in g]
    # be able to watch, and do not run for ever, unless the draw says otherwise
    if r.random()<.8: args.append(["-d"])
    if r.random()<.85: args=[["--terminateNumBackups"],["40"],["--evaluationTrialsPerEpoch"],["6"]]+args
    return args,files
LONG=[990,1022,1023,1023,1024,1024,1024,1025,1500,2049,5000]
def conftext(r,L):
    out=[]
    for x in L:
        # lines about as long as the program can read
        if r.random()<.06 and len(x)>1:
            n=r.choice(LONG)-sum(map(len,x))-len(x)+2
            if x[0]=="customModel": x[1]+="x"*n; n=1
            k=r.choice([len(x)-1,len(x)-1,len(x)]); out.append(" ".join(x[:k])+" "*n+" ".join(x[k:])); continue
        out.append(((" " if x[0]=="alias" else r.choice([" "," ","  ","\t"])).join(x) if x else r.choice([""," "]))+r.choice(["","",""," "]))
    return "\n".join(out)+(r.choice(["\n","\n",""]) if L and L[-1] else "\n")
def words(a): return [w for w in re.split("[ \t]+",a) if w]
def params(text):
    m=re.search(r"^\[params begin\]\n(.*?)^\[params end\]",text,re.S|re.M)
    if not m: return [],[]
    P={}; A={}
    for l in m.group(1).split("\n"):
        x=words(l)
        if not x: continue
        if x[0]=="alias": A[x[1]]=x[2:]
        else: P[x[0]]=" ".join(x[1:])
    return P,A
def inferred(text):
    inf={k:"" for k in("modelType","lowerBoundRepresentation","upperBoundRepresentation","maintainLowerBound","useUpperBoundRunTimeActionSelection")}
    for k,v in re.findall(r"^\[params\] (?:inferred|selected) (\w+)='?(\w+)'?",text,re.M):
        if k in inf: inf[k]=v
    return inf
def ascii_clean(b): return b.decode("latin1")
def run_one(w,k,r_seed,given=None):
    """one invocation in a directory of its own"""
    r=random.Random(r_seed); args,files=given or invocation(r)
    d=os.path.join(w,"i%05d"%k); os.makedirs(d)
    for n,t in FILES.items():
        if n=="out.policy" and r.random()<.7: continue
        open(os.path.join(d,n),"w").write(t)
    pol={p:t for p,t in POLICIES.items() if os.path.exists(os.path.join(d,p))}
    longest=0
    for n,L in files.items(): t=conftext(r,L); longest=max([longest]+[len(x) for x in t.split("\n")]); open(os.path.join(d,n),"w").write(t)
    before={n:os.stat(os.path.join(d,n)).st_mtime_ns for n in os.listdir(d)}
    argv=[" ".join(a) for a in args]; to=0; rc=0; sig=0
    with open(os.path.join(d,".o"),"wb") as o, open(os.path.join(d,".e"),"wb") as e:
        p=subprocess.Popen([lib.ZMDP]+argv,cwd=d,stdout=o,stderr=e,stdin=subprocess.DEVNULL)
        try: rc=p.wait(8)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); to=1; rc=0
    if rc<0: sig,rc=-rc,0
    o=ascii_clean(open(os.path.join(d,".o"),"rb").read()); e=open(os.path.join(d,".e"),"rb").read()
    P,A=params(o); P and P.pop("binaryName",None)
    new=sorted(n for n in os.listdir(d) if n not in(".o",".e") and (n not in before or os.stat(os.path.join(d,n)).st_mtime_ns!=before[n]))
    gen={}
    if os.path.exists(os.path.join(d,"gen.conf")):
        for l in open(os.path.join(d,"gen.conf")):
            x=words(l.strip())
            if x and x[0][0]!="#" and x[0]!="alias": gen[x[0]]=x[1]
    allw={w2 for a in args for w2 in a}|{w2 for L in files.values() for x in L for w2 in x}|{"1e-3","1000","251","-1"}
    val={}
    for s in allw:
        try: v=float(s)
        except ValueError: continue
        if abs(v)<2000: val[s]=dict(m=round(v*1000000),n=int(v))
    val["1000"]=dict(m=1000000000,n=1000)
    ev=[dict(e="Problem",run=k,args=args,files={n:L for n,L in files.items()} or {"#":[]},models=MODELS,policies=pol,val=val,long=int(longest>=1000)),
        dict(e="Ran",rc=rc,sig=sig,timeout=to,out=len(o),err=len(e),files=new,params=P or [],al=A or {"#":[]},inf=inferred(o),gen=gen or {"#":""})]
    if not files and rc==0 and not to and not sig and not any(len(a)==1 and a[0] in("-c","--config","-h","--help","--version","--genConfig") for a in args) and P and P.get("command") in("solve",):
        bo=os.path.join(d,".built")
        subprocess.run([lib.ZH,"built",bo]+argv,cwd=d,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
        ev.append(json.loads(open(bo).read() or '{"e":"Built","solver":"crashed"}'))
    shutil.rmtree(d)
    return "".join(json.dumps(x,separators=(",",":"))+"\n" for x in ev),dict(run=k,fam="cli",opts=dict(args=argv,files=files),model="")
def emitted(w,lines,nargs):
    """every invocation of the closed model ConfigMC, written by TLC"""
    cfg=os.path.join(w,"emit.cfg"); out=os.path.join(w,"emitted.ndjson")
    lib.write_cfg(cfg,["INIT InitE","NEXT NextE","CONSTANTS NLines = %d"%lines," NArgs = %d"%nargs])
    rc,o,st=lib.tlc("ConfigEmit",cfg,os.path.join(w,"emit.meta"),env={"OUT":out})
    if rc: raise lib.CheckError("TLC rc=%d emitting invocations: %s"%(rc,o[-500:]))
    return [json.loads(l) for l in open(out)]
def model_check(w,lines,nargs,workers=8):
    """the closed model satisfies the precedence rule as stated directly"""
    cfg=os.path.join(w,"mc.cfg")
    t=open(os.path.join(lib.SPEC,"ConfigMC.cfg")).read(); t=re.sub(r"NLines = \d+","NLines = %d"%lines,t); t=re.sub(r"NArgs = \d+","NArgs = %d"%nargs,t); open(cfg,"w").write(t)
    rc,o,st=lib.tlc("ConfigMC",cfg,os.path.join(w,"mc.meta"),workers=workers,heap="8g")
    if rc: raise lib.CheckError("the closed model ConfigMC is wrong (rc=%d): %s"%(rc,o[-1500:]))
    return st
def make(seed,n,w,shards=8,replay=None):
    os.makedirs(w,exist_ok=True); jt=[]; metas=[]
    rs=lib.pmap(lambda k: run_one(w,k,seed*100003+k),range(n),16)
    if replay:
        E=emitted(w,*replay); base=100000
        def given(k):
            e=E[k]; pre=[["--terminateNumBackups"],["40"]]; post=[["-d"]]
            # the piece that watches goes first when the line ends in an option without its value
            return run_one(w,base+k,k,(pre+post+[list(a) for a in e["args"]],{"f":[list(x) for x in e["conf"]]}))
        rs+=lib.pmap(given,range(len(E)),16)
    for i in range(shards):
        tr=os.path.join(w,"trace%d.ndjson"%i)
        with open(tr,"w") as f:
            for t,m in rs[i::shards]: f.write(t)
        jt.append((None,tr))
    return jt,[m for _,m in rs]
