"""Life surveys: random maps, well-formed and not; what the real generator, map dump and target tool make of them, split into fields."""
import os, random, json, re, subprocess, math, resource
import lib
PS=10**9
def num(r): return r.choice(["0","1","0.1","0.5","0.25","0.9",".3","0.05"])
def make_map(r,wide=False):
    H=r.choice([1,2,2,3,3,3,4,5]); L=r.randint(3,[0,13,11,9,7,6][H])
    if wide: H=r.choice([2,3,3,4]); L=r.randint(10,[0,0,18,15,12][H])
    nr=r.choice([1,2,2] if wide else [1,1,2,2,3]); dens=r.choice([0,0,.1,.25])
    pic=[[-1]*(L+r.choice([0,0,0,-1,1])) for _ in range(H)]
    for i in range(H):
        for c in range(len(pic[i])):
            if (i+c)%2==0 and r.random()>=dens: pic[i][c]=r.randrange(nr)
    # every region letter up to the largest is a region; lines are not empty
    for i in range(H):
        if not pic[i] or all(x<0 for x in pic[i]): pic[i]=[-1]*max(2,len(pic[i])); pic[i][i%2]=r.randrange(nr)
    # start: prefer the west
    k=1-H%2; free=[((c+H-1-i-k)//2,H-1-i) for i in range(H) for c in range(len(pic[i])) if pic[i][c]>=0]
    free.sort(); st=free[min(len(free)-1,int(abs(r.gauss(0,len(free)/6))))]
    n=1+max(max(x) for x in pic); wt=lambda: [str(r.choice([0,1,2,7,9,42])) for _ in range(3)]
    def w3():
        while 1:
            w=wt()
            if any(x!="0" for x in w): return w
    pre=[["startX",[str(st[0])]],["startY",[str(st[1])]],["baseCost",[r.choice(["1.0","1","2","5.0","0.5","0"])]],["lookaheadCost",[r.choice(["5.0","1","0.25","0"])]],
         ["regionPriors",[num(r) for _ in range(n)]],["obsDistributionLifeAbsent",w3()],["obsDistributionLifePresent",w3()]]
    return pre,pic,free,n
def spoil(r,pre,pic,free,n):
    c=r.randrange(9); sep=1; pre=[[k,list(v)] for k,v in pre]
    if c==0: pre.pop(r.randrange(len(pre)))
    elif c==1: k=r.choice(pre[5:7]); k[1]=k[1][:2] if r.random()<.5 else k[1]+["1"]
    elif c==2: k=pre[4]; k[1]=k[1]+["0.5"] if r.random()<.5 or len(k[1])<2 else k[1][:-1]
    elif c==3:
        i=r.randrange(len(pic)); c2=[c for c in range(len(pic[i])) if (i+c)%2==1]
        if c2: pic[i][r.choice(c2)]=0
        else: sep=0
    elif c==4: i=r.randrange(len(pic)); pic[i][r.randrange(len(pic[i]))]=-2
    elif c==5: sep=0
    elif c==6: pre[0][1]=[str(r.choice([-1,0,1,2,5,40]))]; pre[1][1]=[str(r.choice([-1,0,1,3,9]))]
    elif c==7: pic.insert(r.randrange(len(pic)),[])
    else: k=r.choice(pre); k[1]=["x"]
    return sep
def text(r,pre,pic,sep):
    out=[]; pre=list(pre)
    for k,v in pre:
        if r.random()<.1: out.append(r.choice(["# "+k,""]))
        out.append(k+r.choice([" "," ","  ","\t"])+r.choice([" "," ","  ","\t"]).join(v)+r.choice(["","",""," "]))
    if sep: out.append(r.choice(["---","-","--- map"]))
    for row in pic: out.append("".join("?" if x==-2 else " " if x<0 else chr(97+x) for x in row))
    return "\n".join(out)+("" if r.random()<.2 and pic[-1] and pic[-1][-1]>=0 else "\n")
def field(k,v):
    try: f=[float(x) for x in v]
    except ValueError: return []
    u=dict(startX=1,startY=1,baseCost=10**6,lookaheadCost=10**6,regionPriors=PS).get(k,1)
    return [round(x*u) for x in f]
DIR={0:1,1:2,2:3,-1:0}
def state(name):
    if name=="sterminal": return [],0
    m=re.match(r"sx(-?\d+)y(-?\d+)d(\d)u(\d)n(\d)(\d)(\d)r(\d*)$",name)
    if not m: return [-9,-9,1,0,[0,0,0],[]],1
    g=m.groups(); return [int(g[0]),int(g[1]),int(g[2])+1,int(g[3]),[int(g[4]),int(g[5]),int(g[6])],[int(x) for x in g[7]]],0
ACT={"ane":0,"ae":1,"ase":2,"anes":3,"aes":4,"ases":5,"alook":6}
def read(f,full):
    """split a generated file into its tables (last statement about an entry wins, as in the format)"""
    d=dict(states=None,T={},O={},R={},start=[],g=None,na=None,no=None); si={}; an={}; on={}
    for l in open(f,errors="replace"):
        w=l.split()
        if not w: continue
        k=w[0]
        if k=="discount:": d["g"]=round(float(w[1])*PS)
        elif k in("actions:","observations:","states:"):
            t=w[1:] if full else [str(i) for i in range(int(w[1]))]
            if k=="actions:": d["na"]=len(t); an={x:i for i,x in enumerate(t)}; d["alab"]=t
            elif k=="observations:": d["no"]=len(t); on={x:i for i,x in enumerate(t)}; d["olab"]=t
            else: d["states"]=t; si={x:i for i,x in enumerate(t)}
        elif k=="start:": d["start"]=[[i,max(1,round(float(x)*PS))] for i,x in enumerate(w[1:]) if float(x)]
        elif k=="T:": d["T"].setdefault((an[w[1]],si[w[3]]),{})[si[w[5]]]=max(1,round(float(w[6])*PS)) if float(w[6]) else 0
        elif k=="O:": d["O"].setdefault((an[w[1]],si[w[3]]),{})[on[w[5]]]=max(1,round(float(w[6])*PS)) if float(w[6]) else 0
        elif k=="R:": d["R"][(an[w[1]],si[w[3]])]=round(float(w[-1])*10**6)
    return d
HUNG=[]
def limits():
    resource.setrlimit(resource.RLIMIT_FSIZE,(30<<20,30<<20)); resource.setrlimit(resource.RLIMIT_AS,(4<<30,4<<30))
def run(cmd,d,out):
    # (every run takes a fraction of a second)
    try: p=subprocess.run(cmd,cwd=d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=60,preexec_fn=limits)
    except subprocess.TimeoutExpired as x:
        HUNG.append(d); out.append(dict(e="Crash",sig=9,rc=-9,msg=0)); return -9,(x.stdout or b"").decode("latin-1")
    if p.returncode: out.append(dict(e="Crash",sig=max(0,-p.returncode),rc=p.returncode,msg=len(p.stdout)))
    return p.returncode,p.stdout.decode("latin-1")
def one(k,seed,w):
    if len(HUNG)>8: return []
    r=random.Random(seed); d=os.path.join(w,"s%05d"%k); os.makedirs(d,exist_ok=True)
    pre,pic,free,n=make_map(r); sep=1
    if r.random()<.2: sep=spoil(r,pre,pic,free,n)
    r.shuffle(pre)
    if r.random()<.1: i=r.randrange(len(pre)); pre.insert(0,[pre[i][0],["0.5"] if pre[i][0].startswith("base") else pre[i][1]])
    known=int(r.random()<.25); tg=[list(p) for p in r.sample(free,r.randint(0,len(free)))]
    if known and r.random()<.2: tg.append([r.randint(0,9),r.randint(0,5)])
    f=os.path.join(d,"m.lifeSurvey"); open(f,"w").write(text(r,pre,pic,sep)); open(os.path.join(d,"m.targets"),"w").write("# x y\n"+"".join("%d %d\n"%tuple(p) for p in tg))
    out=[dict(e="Problem",run=k,pre=[[a,field(a,v)] for a,v in pre],sep=sep,pic=pic,known=known,tg=tg)]
    b=os.path.join(lib.V,"build"); t=["-t","m.targets"] if known else []
    done=0
    rc,_=run([b+"/genls","-f"]+t+["m.lifeSurvey","full.pomdp"],d,out)
    if rc==0: rc,_=run([b+"/genls"]+t+["m.lifeSurvey"],d,out)
    if rc==0:
        try: F=read(os.path.join(d,"full.pomdp"),1); G=read(os.path.join(d,"m.pomdp"),0)
        except (ValueError,KeyError,IndexError): out.append(dict(e="Torn")); return [json.dumps(e,separators=(",",":")) for e in out]
        st=[state(x) for x in F["states"]]; ns=len(st)
        # (the names are read; a name that occurs twice stands for its last place, as in the format)
        out.append(dict(e="Names",states=[s for s,_ in st],odd=sum(o for _,o in st)+ns-len(set(F["states"])),g=F["g"],na=F["na"],no=F["no"],same=int((F["g"],F["na"],F["no"],ns)==(G["g"],G["na"],G["no"],len(G["states"])))))
        out.append(dict(e="Start",b=F["start"],num=G["start"]))
        al=[ACT.get(x,-1) for x in F["alab"]]
        for i in (range(ns) if ns<=150 else sorted(r.sample(range(ns),100))):
            def tab(X): return [[[[j,p] for j,p in sorted(X[z].get((al.index(a) if a in al else -1,i),{}).items())] for a in range(7)] for z in "TO"]+[[X["R"].get((al.index(a) if a in al else -1,i),0) for a in range(7)]]
            def raw(X): return [[X[z].get((a,i)) for a in range(7)] for z in "TOR"]
            T,O,R=tab(F); out.append(dict(e="St",i=i,t=T,o=O,r=R,same=int(raw(F)==raw(G))))
    rc,_=run([b+"/lsdump","m.lifeSurvey"],d,out)
    if rc==0: out.append(dict(e="Map",c=[[int(x) for x in l.split()] for l in open(os.path.join(d,"m.mapDump"))]))
    rc,o=run([b+"/lstargets","-s",str(r.randrange(1,10**6)),"m.lifeSurvey"],d,out)
    if rc==0:
        L=o.split("\n"); m=re.search(r"numTargets=(\d+)",L[0]); j=max((i for i,x in enumerate(L) if x.startswith("--")),default=len(L))
        # one line per row: its number, two characters in, the number again; the last coordinate row names the columns
        rows=[x[2:] for x in L[2:j-1]]; rows=[re.sub(r"  ?\d$","",x) for x in rows]
        out.append(dict(e="Life",n=int(m.group(1)) if m else -1,list=[[int(a),int(b)] for a,b in re.findall(r"(\d+), ?(\d+)"," ".join(L[j+1:]))],pic=[[{"O":1,"*":0}.get(c,-1) for c in x] for x in rows]))
    return [json.dumps(e,separators=(",",":")) for e in out]
def make(seed,n,w,shards=16):
    os.makedirs(w,exist_ok=True)
    rs=lib.pmap(lambda k: one(k,seed*100003+k,w),list(range(n)))
    jt=[]; metas=[]
    for s in range(shards):
        tr=os.path.join(w,"trace%d.ndjson"%s)
        ls=[x for k in range(s,n,shards) for x in rs[k]]
        if ls: open(tr,"w").write("\n".join(ls)+"\n"); jt.append((None,tr))
    for k in range(n): metas.append(dict(run=k,fam="survey",opts={},model=os.path.join(w,"s%05d"%k,"m.lifeSurvey")))
    return jt,metas
def path(k,seed,w):
    """one evaluation of the path policy (or the blind one)"""
    if len(HUNG)>8: return []
    r=random.Random(seed); d=os.path.join(w,"p%05d"%k); os.makedirs(d,exist_ok=True); most=16 if r.random()<.8 else 28
    while 1:
        pre,pic,free,n=make_map(r,most>16)
        if most-12<len(free)<=most or most==16 and len(free)<=16: break
    P=dict((a,v) for a,v in pre)
    # (only with readings that differ can life be told from none; the start is not an exit)
    x,y=int(P["startX"][0]),int(P["startY"][0])
    if not any(q[1]==y and q[0]>x for q in free): return path(k,seed+1,w)
    blind=int(r.random()<.05); limit=r.choice([0,0,60,r.randint(1,9)]) if not blind else r.randint(1,9); trials=r.choice([1,3,10,35] if most==16 else [1,2])
    open(os.path.join(d,"m.lifeSurvey"),"w").write(text(r,pre,pic,1)); t=[]
    if r.random()<.3:
        tg=r.sample(free,r.randint(0,len(free))); open(os.path.join(d,"m.targets"),"w").write("".join("%d %d\n"%p for p in tg)); t=["-t","m.targets"]
    out=[dict(e="Problem",run=k,pre=[[a,field(a,v)] for a,v in pre],sep=1,pic=pic,known=0,tg=[],blind=blind,limit=limit if limit else -1,trials=trials)]
    b=os.path.join(lib.V,"build")
    rc,_=run([b+"/genls"]+t+["m.lifeSurvey"],d,out)
    if rc==0:
        c=[]; rc,o=run([b+"/zmdp","evaluate"]+r.choice([["-f"],[]])+["--policyType","lsblind" if blind else "lspath"]+([] if blind else ["--customModel","m.lifeSurvey"])+["--useEvaluationCache",str(r.choice([0,1])),"--evaluationMaxStepsPerTrial",str(limit),"--evaluationTrialsPerEpoch",str(trials),"--simulationTracesToLogPerEpoch","-1","m.pomdp"],d,c)
        if not blind:
            m=re.search(r"number of life samples\): (\S+)",o); q=o[o.find("best path:"):].split("batchRewards")[0].split("ERROR")[0] if "best path:" in o else ""
            if m: out.append(dict(e="Plan",value=round(float(m.group(1))*10**6),cells=[[int(a),int(z)] for a,z in re.findall(r"\( *(\d+), *(\d+)\)",q)]))
        for l in open(os.path.join(d,"sim.plot")) if os.path.exists(os.path.join(d,"sim.plot")) else []:
            u=l.split()
            if u[:1]==[">>>"]: out.append(dict(e="Begin"))
            elif u[:1]==["terminated"]: out.append(dict(e="End"))
            elif u[:1]==["sim:"] and len(out)<3000:
                g=re.match(r"sim: \[[^]]*\] (\d+) \[[^]]*\] (\d+)",l)
                if g: out.append(dict(e="Act",a=int(g.group(1))+1,o=int(g.group(2))))
        out+=c or [dict(e="Finish")]
    return [json.dumps(e,separators=(",",":")) for e in out]
def make_paths(seed,n,w,shards=16):
    os.makedirs(w,exist_ok=True)
    rs=lib.pmap(lambda k: path(k,(seed*100003+k)*1009,w),list(range(n))); jt=[]
    for s in range(shards):
        tr=os.path.join(w,"trace%d.ndjson"%s); ls=[x for k in range(s,n,shards) for x in rs[k]]
        if ls: open(tr,"w").write("\n".join(ls)+"\n"); jt.append((None,tr))
    return jt,[dict(run=k,fam="path",opts={},model=os.path.join(w,"p%05d"%k,"m.lifeSurvey")) for k in range(n)]
