"""Race tracks: random maps and properties, well-formed and not, explored through the real model."""
import os, random, json, re
PS=10**9
def cells(r):
    st=r.random()
    if st<.25: w,h=r.randint(3,14),1
    elif st<.6: w,h=r.randint(2,7),r.randint(2,5)
    elif st<.9: w,h=r.randint(6,14),r.randint(4,9)
    else: w,h=r.randint(16,40),r.randint(8,20)
    dens=r.choice([0,.05,.15,.3]); m=[[1 if r.random()<dens else 0 for _ in range(w)] for _ in range(h)]
    if r.random()<.5:
        for x in range(w): m[0][x]=m[h-1][x]=1
        for y in range(h): m[y][0]=m[y][w-1]=1
        if h<3:
            m=[[0]*w for _ in range(h)]; m[0][0]=m[h-1][w-1]=1
    free=[(y,x) for y in range(h) for x in range(w) if not m[y][x]] or [(0,0)]
    for y,x in r.sample(free,min(len(free),r.choice([1,1,2,3,4,5]))): m[y][x]=2
    rest=[(y,x) for y,x in free if m[y][x]==0]
    for y,x in r.sample(rest,min(len(rest),r.choice([0,1,1,2,3,6]))): m[y][x]=3
    return m
def props(r):
    disc=r.choice(["1","1.0","0.95","0.9","0.99",".5"]); umc=1 if float(disc)==1 else r.choice([0,1])
    err=r.choice(["0","0.1","0.2","0.4","1","0.008","0.0001","0.8"])
    P=dict(discount=disc,errorProbability=err,useMaxCost=str(umc),useErrorIsWind=str(r.choice([0,1])))
    if umc or r.random()<.3: P["maxCost"]=r.choice(["1000","50","1e3","0"])
    return P
def text(r,P,m):
    ks=list(P.items()); r.shuffle(ks); out=[]
    for k,v in ks:
        if r.random()<.15: out.append("# "+k)
        out.append(k+r.choice([" ","\t","   "])+v)
    out.append(r.choice(["---","-","----- map"]))
    fl=r.choice([" ",".","_"])
    for row in m:
        if r.random()<.08: out.append("# here")
        out.append("".join({0:fl,1:"@",2:"s",3:"f"}[c] for c in row))
    return "\n".join(out)+("\n" if r.random()<.75 else "")
def spoil(r,P,m):
    P=dict(P); m=[list(x) for x in m]; c=r.randrange(11); t=None
    if c==0: del P[r.choice(["discount","errorProbability","useMaxCost","useErrorIsWind"])]
    elif c==1: P["useMaxCost"]="1"; P.pop("maxCost",None)
    elif c==2: P[r.choice(["discount","errorProbability"])]=r.choice(["x","1.2","-0.1","0.9x","nan","1e400"])
    elif c==3: P["discount"]="0"
    elif c==4: P[r.choice(["useMaxCost","useErrorIsWind"])]=r.choice(["yes","-1","2"])
    elif c==5: m=[[0 if x==2 else x for x in row] for row in m]
    elif c==6: m=[]
    elif c==7:
        if len(m)<2: m=m+[m[0]+[0]]
        else: i=r.randrange(len(m)); m[i]=m[i]+[0] if r.random()<.5 or len(m[i])<2 else m[i][:-1]
    elif c==8: t="".join(l+"\n" for l in text(r,P,m).split("\n") if not l.startswith("-"))
    elif c==9: m.insert(r.randrange(len(m)),[])
    else: P[r.choice(["discount","errorProbability","useMaxCost","useErrorIsWind"])]=""
    return t or text(r,P,m)
def make(seed,n,w,shards=8,malformed=.12,cap=60):
    os.makedirs(w,exist_ok=True); r=random.Random(seed); jobs=[[] for _ in range(shards)]; metas=[]
    for k in range(n):
        m=cells(r); P=props(r); bad=int(r.random()<malformed); t=(spoil if bad else text)(r,P,m)
        f=os.path.join(w,"t%04d.racetrack"%k); open(f,"w").write(t)
        pl=os.path.join(w,"t%04d.problem"%k)
        d=dict(e="Problem",run=k,bad=bad,rows=[] if bad else m,g=round(float(P["discount"])*PS),err=round(float(P["errorProbability"])*PS),wind=int(P["useErrorIsWind"]))
        open(pl,"w").write(json.dumps(d,separators=(",",":"))+"\n")
        sh=k%shards; tr=os.path.join(w,"trace%d.ndjson"%sh); ca=r.choice([0,1])
        jobs[sh].append("%s track %s %s %d %d %d"%(tr,pl,f,r.choice([cap,cap,4*cap]),ca,r.randrange(1<<30)))
        metas.append(dict(run=k,fam="track-bad" if bad else "track",opts=dict(file=f,cached=ca),model=f))
    return pack(jobs,w),metas
def pack(jobs,w):
    out=[]
    for i,j in enumerate(jobs):
        if j:
            jf=os.path.join(w,"jobs%d"%i); open(jf,"w").write("\n".join(j)+"\n"); out.append((jf,os.path.join(w,"trace%d.ndjson"%i)))
    return out
def pool(r,n,w):
    """numbered-MDP views of small tracks (the real model listed by the harness; P18 judges that listing against the rules)"""
    import subprocess, lib, gen
    os.makedirs(w,exist_ok=True); fs=[]; out=os.path.join(w,"pool.ndjson"); k=0
    while len(fs)<4*n:
        kind=r.random(); err=r.choice(["0","0.125","0.25","0.5"]); disc=r.choice([.75,.9,.95])
        if kind<.5: m=[[1]*(L+2) if i!=1 else [1]+[0]*L+[1] for L in [r.randint(2,6)] for i in range(3)]
        else: W,H=r.randint(1,3),r.randint(1,3); m=[[r.choice([0,0,0,1]) for _ in range(W)] for _ in range(H)]
        if r.random()<.3: m=[list(x) for x in zip(*m)]
        free=[(y,x) for y in range(len(m)) for x in range(len(m[0])) if m[y][x]==0]
        if len(free)<2: continue
        ss=r.sample(free,min(len(free)-1,r.choice([1,1,2])))
        for y,x in ss: m[y][x]=2
        rest=[c for c in free if c not in ss]
        for y,x in r.sample(rest,min(len(rest),r.choice([1,1,2]))): m[y][x]=3
        P=dict(discount="%g"%disc,errorProbability=err,useMaxCost="0",useErrorIsWind=str(r.choice([0,0,1])))
        if r.random()<.3: P["useMaxCost"]="1"; P["maxCost"]="%g"%r.choice([20,30,50])
        t=text(r,P,m); f=os.path.join(w,"p%03d.racetrack"%k); k+=1; open(f,"w").write(t); fs.append((f,t,disc,P))
    jf=os.path.join(w,"pooljobs"); open(jf,"w").write("".join("%s trackmodel %s 31\n"%(out,f) for f,_,_,_ in fs)); lib.run_jobs([jf])
    by={f:(t,d,P) for f,t,d,P in fs}; res=[]
    for l in open(out):
        d=json.loads(l)
        if "file" not in d or d["n"]<2 or -1 in d.get("r",[]) and d["n"]==-1: continue
        t,disc,P=by[d["file"]]; S=d["n"]; K=64
        p=gen.base("mdp",S,9,1,disc); p.k=K; p.fam="track"; p.text=t; p.ext="racetrack"; p.leak=0
        p.T=[[[0]*S for _ in range(S)] for _ in range(9)]; ok=True
        for s in range(S):
            for a in range(9):
                for x,q in d["T"][s][a]:
                    if x<0: ok=False; continue
                    v=q*K; ok=ok and abs(v-round(v))<1e-6; p.T[a][s][x]+=round(v)
        p.R=[[round(d["r"][s])]*9 for s in range(S)]; p.Ob=[[[K] for _ in range(S)] for _ in range(9)]; p.b0=gen.unit(S,0,K)
        # without errors every reward sequence must stay above the lower bound the file promises
        if P["useMaxCost"]=="1" and float(P["maxCost"])<1/(1-disc)-1e-9: continue
        if ok: res.append(p)
        if len(res)>=n: break
    return res
def model_check(w,sizes):
    """the rules on their own: every map of these sizes"""
    import lib
    os.makedirs(w,exist_ok=True); tot=dict(distinct=0,generated=0)
    for W,H,V in sizes:
        cfg=os.path.join(w,"mc%d%d.cfg"%(W,H))
        lib.write_cfg(cfg,["SPECIFICATION Spec","CONSTANTS W = %d H = %d MaxV = %d"%(W,H,V),"CONSTRAINT Speed","INVARIANTS SumsToOne OnTrack Standing","CHECK_DEADLOCK FALSE"])
        rc,o,st=lib.tlc("TrackMC",cfg,cfg+".meta",workers=8,heap="8g")
        if rc: raise lib.CheckError("the closed model TrackMC is wrong (rc=%d): %s"%(rc,o[-1500:]))
        for k in tot: tot[k]+=st[k]
    return tot
