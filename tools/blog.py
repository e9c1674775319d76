"""Backup logs: runs that write them, the files, and replays of the same or edited files (LogTrace.tla)."""
import os, re, json, random
import gen, lib, runs
def lines(path): return open(path).read().split("\n") if os.path.exists(path) else []
def useful(L): return [s for s in (x.strip(" \t") for x in L) if s and s[0]!="#"]
def num(x,scale):
    v=float(x)
    if v!=v or abs(v)*scale>2e9: return 2000000001
    return round(float('%.9f'%v)*scale) if scale==gen.PS else round(v*scale)
INT=r"[-+]?\d{1,9}"; REAL=r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
def index_tokens(L,pomdp):
    out=[]
    for s in useful(L):
        m=re.fullmatch("state (%s)"%INT,s)
        if m: out.append(["state",int(m[1])]); continue
        m=re.fullmatch("(%s)[ \t]+(%s)"%(INT,REAL),s)
        out.append(["entry",int(m[1]),num(m[2],gen.PS if pomdp else 1)] if m else ["bad"])
    return out
def log_tokens(L): return [["id",int(s)] if re.fullmatch(INT,s) else ["bad"] for s in useful(L)]
def rows(L,k):
    out=[]
    for s in useful(L):
        w=s.split()
        try: out.append([int(x) for x in w[:k]]+[num(x,gen.VS) for x in w[k:]])
        except ValueError: out.append([-1])
    return out
def js(x): return json.dumps(x,separators=(',',':'))
GARBAGE=["x","1 x","state","1e","--","# ok\n7x","0 0.5 1 2","\\"]
def edit(r,ix,lg,dim):
    """one edit of well-formed files: some keep them well-formed, some damage them; returns the files and whether they replay the same run"""
    ix=list(ix); lg=list(lg); body=[i for i,s in enumerate(lg) if s.strip() and s[0]!="#"]; st=[i for i,s in enumerate(ix) if s.startswith("state")]
    ent=[i for i,s in enumerate(ix) if s.strip() and s[0]!="#" and not s.startswith("state")]
    c=r.choice(["comment","blank","nonl","prefix","shuffle","repeat","empty","pad","id-high","id-neg","id-huge","id-garbage","state-skip","state-dup","state-garbage","entry-high","entry-neg",
                "entry-garbage","entry-first","long","state-drop-number","missing-index","missing-log","longcomment"]); same=0
    if c=="comment":
        for f in(ix,lg): f.insert(r.randrange(len(f)),r.choice(["# note","#","  # state 3"]))
        same=1
    elif c=="blank":
        for f in(ix,lg): f.insert(r.randrange(len(f)),r.choice([""," ","\t"]))
        same=1
    elif c=="nonl": ix=[x for x in ix if x]; lg=[x for x in lg if x]; same=1
    elif c=="pad": lg=[("  "+x+" " if i in body else x) for i,x in enumerate(lg)]; ix=[("\t"+x if x and x[0]!="#" else x) for x in ix]; same=1
    elif c=="longcomment": ix.insert(0,"# "+"x"*r.choice([1021,1022,1023,3000])); lg.insert(0,"#"*r.choice([1023,1024,5000])); same=1
    elif c=="prefix": lg=lg[:r.choice(body)+1]
    elif c=="shuffle":
        v=[lg[i] for i in body]; r.shuffle(v)
        for i,x in zip(body,v): lg[i]=x
    elif c=="repeat": lg=lg+[lg[r.choice(body)] for _ in range(5)]
    elif c=="empty": lg=[x for i,x in enumerate(lg) if i not in body]
    elif c=="id-high": lg[r.choice(body)]=str(len(st)+r.choice([0,0,1,50]))
    elif c=="id-neg": lg[r.choice(body)]="-%d"%r.choice([1,2,1000])
    elif c=="id-huge": lg[r.choice(body)]=r.choice(["999999999","-999999999"])
    elif c=="id-garbage": lg[r.choice(body)]=r.choice(["x","1x","0 0","1.5","state 0","-"])
    elif c=="state-skip": i=r.choice(st); ix[i]="state %d"%(int(ix[i].split()[1])+r.choice([1,1,-1,7]))
    elif c=="state-dup": i=r.choice(st); ix.insert(i,ix[i])
    elif c=="state-garbage": ix[r.choice(st)]=r.choice(["state x","state 0x1","states 0","state 0 0","my state"])
    elif c=="state-drop-number": ix[r.choice(st)]="state"
    elif c=="entry-high" and ent: i=r.choice(ent); ix[i]="%d %s"%(dim+r.choice([0,0,1,1000000]),ix[i].split()[1])
    elif c=="entry-neg" and ent: i=r.choice(ent); ix[i]="-1 "+ix[i].split()[1]
    elif c=="entry-garbage" and ent: ix[r.choice(ent)]=r.choice(["0","x 1","0 x","0 1 2","0:1","0 1x"])
    elif c=="entry-first": ix.insert(st[0],"0 1")
    elif c=="long": f=r.choice([ix,lg]); f.insert(r.randrange(len(f)),"1"*r.choice([1023,1024,1025,4000]))
    elif c.startswith("missing"): pass
    else: same=1
    return c,ix,lg,same
def make(seed,n,w,shards=8):
    r=random.Random(seed); os.makedirs(w,exist_ok=True); jobs=[[] for _ in range(shards)]; R=[]
    for k in range(n):
        p=None
        while p is None or p.fam=="regime":   # (its beliefs can coincide at the precision of the log)
            strat,p=runs.choose(r,["frtdp","hsvi","rtdp","lrtdp","hdp"],["mdp","pomdp","pomdp"])
        o,cfg=runs.options(r,strat,p)
        lg=1 if r.random()<.9 else 0; q=1 if not lg or r.random()<.3 else 0
        d=os.path.join(w,"d%d"%k); os.makedirs(d)
        m=os.path.join(w,"m%04d.%s"%(k,p.kind)); open(m,"w").write(gen.model_text(p))
        pl=os.path.join(d,"problem"); dim=p.S if p.kind=="pomdp" else 1
        open(pl,"w").write(js(dict(e="Problem",run=k,dim=dim,A=p.A,lg=lg,q=q,keeps=0 if strat in('lrtdp','hdp') else 1))+"\n")
        f={x:os.path.join(d,x) for x in("stateIndex.log","backups.log","bounds.log","q.log")}
        out=dict(useLogBackups=lg,stateIndexOutputFile=f["stateIndex.log"],backupsOutputFile=f["backups.log"],boundValuesOutputFile=f["bounds.log"],qValuesOutputFile=f["q.log"] if q else "none")
        if lg==0: out.pop("boundValuesOutputFile")
        tr=os.path.join(d,"t1"); arg=lambda o: " ".join("--%s %s"%x for x in o.items())
        jobs[k%shards].append("%s logs %s %d %d %d %d solve %s %s %s"%(tr,pl,r.randrange(1<<30),r.choice([1,1,2,3,6,15]),150,q,m,arg(o),arg(out)))
        R.append((k,p,o,cfg,lg,q,d,f,m,tr,dim))
    def run(js,tag):
        fs=[]
        for i,j in enumerate(js):
            if j: fs.append(os.path.join(w,"%s%d"%(tag,i))); open(fs[-1],"w").write("\n".join(j)+"\n")
        lib.run_jobs(fs)
    run(jobs,"jobs"); jobs=[[] for _ in range(shards)]; ev={}; metas=[]
    for k,p,o,cfg,lg,q,d,f,m,tr,dim in R:
        pom=p.kind=="pomdp"; L=[x for x in open(tr)]; kind="plain"
        if '"e":"End"' in L[-1]:
            ix,bl=lines(f["stateIndex.log"]),lines(f["backups.log"])
            L.append(js(dict(e="Files",index=index_tokens(ix,pom),log=log_tokens(bl),vals=rows(lines(f["bounds.log"]),1),q=rows(lines(f["q.log"]),2)))+"\n")
            if lg and not(o.get("maxHorizon") and 0):
                o2=dict(o,searchStrategy="script",maintainLowerBound=cfg["hasL"],maintainUpperBound=1); same=1; missing=0
                c=r.random()
                if c<.5 and any(x[:1].isdigit() for x in bl): kind,ix,bl,same=edit(r,ix,bl,dim)
                elif c<.65 and pom and cfg["hasL"]:
                    o2.update(upperBoundRepresentation=r.choice(["point","sawtooth"]),lowerBoundRepresentation=r.choice(["point","maxPlanes"])); kind="other"
                    same=1 if all(o2[x]==o.get(x) for x in("upperBoundRepresentation","lowerBoundRepresentation")) else 0
                for x in("stateIndex.log","backups.log"): os.unlink(f[x])
                g=os.path.join(d,"g"); os.makedirs(g)
                for x,b in(("stateIndex.log",ix),("backups.log",bl)):
                    if kind==dict([("stateIndex.log","missing-index"),("backups.log","missing-log")])[x]: missing=1; continue
                    open(os.path.join(g,x),"w").write("\n".join(b))
                given=js(dict(e="Given",index=index_tokens(ix,pom),log=log_tokens(bl),same=same,missing=missing))+"\n"
                pl=os.path.join(d,"given"); open(pl,"w").write(given); t2=os.path.join(d,"t2")
                o2.update(backupScriptInputDir=g,stateIndexOutputFile="stateIndex.log",backupsOutputFile="backups.log",boundValuesOutputFile=os.path.join(d,"after.log"))
                jobs[k%shards].append("%s logs %s %d %d %d 0 solve %s %s"%(t2,pl,1,100000,100000,m,arg(o2)))
        ev[k]=L; metas.append(dict(run=k,fam=p.fam,opts=dict(o,edit=kind),model=m))
    run(jobs,"again"); res=[]
    for i in range(shards):
        tr=os.path.join(w,"trace%d.ndjson"%i)
        with open(tr,"w") as fo:
            for k,p,o,cfg,lg,q,d,f,m,t1,dim in R[i::shards]:
                fo.writelines(ev[k])
                t2=os.path.join(d,"t2")
                if os.path.exists(t2):
                    fo.writelines(x if x.endswith("\n") else x+"\n" for x in open(t2) if x.strip())
                    if os.path.exists(os.path.join(d,"after.log")): fo.write(js(dict(e="After",vals=rows(lines(os.path.join(d,"after.log")),1)))+"\n")
        if R[i::shards]: res.append((None,tr))
    return res,metas
