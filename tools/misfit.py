"""Policy files that do and do not fit the model (MisfitTrace.tla)."""
import os, json, random
import gen, policy, lib
def T(k,n=0,v=0,t=""): return dict(k=k,n=n,v=v,t=t)
def entry(n,x): return T("entry",n,round(float(x)*gen.VS),x)
def val(x):
    try: return T("int",int(x),int(x)*gen.VS,x)
    except ValueError: return T("num",0,round(float(x)*gen.VS),x)
def planes_file(r,S,A):
    out=[T("type",t='  policyType => "MaxPlanesLowerBound",'),T("note",t="  numPlanes => @N,"),T("note",t="  planes => [")]
    np=r.choice([0,1,1,2,3,5])
    for i in range(np):
        sup=[s for s in range(S) if i==0 or r.random()<.7]
        out+=[T("note",t="    {"),T("action",r.randrange(A))]
        out+=[T("note",t="      numEntries => %d,"%len(sup)),T("note",t="      entries => [")]
        out+=[entry(s,policy.num(r)) for s in sup]+[T("note",t="      ]"),T("note",t="    },")]
    return out+[T("note",t="  ]"),T("note",t="}")],np
def mutate(r,toks,S,A):
    L=list(toks); i=r.randrange(len(L)); c=r.randrange(8)
    ks=lambda k: [j for j,t in enumerate(L) if t["k"]==k]
    if c==0 and ks("action"): L[r.choice(ks("action"))]=T("action",r.choice([A,A+3,-1,1000]))
    elif c==1 and ks("entry"): L[r.choice(ks("entry"))]=entry(r.choice([S,S+1,S+40,-1,100000,0]),"1.5")
    elif c==2 and ks("entry"): j=r.choice(ks("entry")); L.insert(j,L[j])
    elif c==3 and ks("entry"): j=r.choice(ks("entry")); k=r.choice(ks("entry")); L[j],L[k]=L[k],L[j]
    elif c==4: del L[i]
    elif c==5: L=L[:i]
    elif c==6: L.insert(i,T("bad",t=r.choice(["hello","action => ","3 4","{ 1, 2 }","x, 2","action => one"])))
    else:
        js=[j for j in range(len(L)) if L[j]["k"] in("type","action")]
        if js: del L[r.choice(js)]
    return L
def alpha_file(r,S,A):
    np=r.choice([0,1,1,2,3]); return [t for _ in range(np) for t in [val(str(r.randrange(A)))]+[val(policy.num(r)) for _ in range(S)]],np
def mutate_alpha(r,toks,S,A):
    L=list(toks); i=r.randrange(len(L)) if L else 0; c=r.randrange(5)
    if not L: return [val("0")]
    if c==0: L[(i//(S+1))*(S+1)]=val(r.choice([str(A),"-1","99","0.5","1e0"]))
    elif c==1: del L[i]
    elif c==2: L.insert(i,val(policy.num(r)))
    elif c==3: L[i]=T("bad",t=r.choice(["x","--","nanx"]))
    else: L=L[:i]
    return L
def text(r,fmt,toks,S,np):
    if fmt=="alpha":
        return "".join(t["t"]+r.choice([" ","\n","  "]) for t in toks)
    out=["# policy"]+(["{"] if r.random()<.8 else [])
    for t in toks:
        out.append({"action":"      action => %d,"%t["n"],"entry":"        %d, %s,"%(t["n"],t["t"])}.get(t["k"],t["t"].replace("@N",str(np))))
        if r.random()<.05: out.append(r.choice([""," ","# note"]))
    return "\n".join(out)+r.choice(["\n",""])
def make(seed,n,w,shards=4):
    os.makedirs(w,exist_ok=True); r=random.Random(seed); jobs=[[] for _ in range(shards)]; metas=[]
    for k in range(n):
        p=gen.make_pomdp(r,r.choice(["full","map","noisy"])); fmt=r.choice(["planes","alpha"])
        toks,np=(planes_file if fmt=="planes" else alpha_file)(r,p.S,p.A); bad=r.random()<.65
        if bad: toks=(mutate if fmt=="planes" else mutate_alpha)(r,toks,p.S,p.A)
        b=os.path.join(w,"x%04d"%k); open(b+".pomdp","w").write(gen.model_text(p)); open(b+"."+fmt,"w").write(text(r,fmt,toks,p.S,np))
        open(b+".problem","w").write(json.dumps(dict(e="Problem",run=50000+k,fmt=fmt,S=p.S,A=p.A,toks=[dict(k=t["k"],n=t["n"],v=t["v"]) for t in toks]),separators=(",",":"))+"\n")
        tr=os.path.join(w,"mtrace%d.ndjson"%(k%shards))
        jobs[k%shards].append("%s readpolicy %s %s %s 0 evaluate %s --policyType %s"%(tr,b+".problem",b+".pomdp",b+"."+fmt,b+".pomdp","maxPlanes" if fmt=="planes" else "cassandraAlpha"))
        metas.append(dict(run=50000+k,fam="policy-"+fmt,opts=dict(file=b+"."+fmt,mutated=bad),model=b))
    jt=[]
    for i,j in enumerate(jobs):
        jf=os.path.join(w,"mjobs%d"%i); open(jf,"w").write("\n".join(j)+"\n"); jt.append((jf,os.path.join(w,"mtrace%d.ndjson"%i)))
    return jt,metas
