"""Random well-typed sequences of vector and matrix operations for harness/slax.cc."""
import os, random, json, subprocess, itertools
import lib
CAP=10**7
def program(r,k):
    """job text of one run; registers are typed (size, bound on the values)"""
    L=["Run 0 0 0 0 0 0",json.dumps(dict(e="Problem",run=k),separators=(",",":"))]
    sq=r.random()<.5; p=r.choice([1,2,3,4,5,6,8]); q=p if sq else r.choice([1,2,3,4,5,7]); dens=r.choice([.1,.3,.5,.8,1]); big=r.random()<.1
    if big: p=q=r.choice([12,20]); dens=r.choice([.02,.05,.1])
    C=[None]*4; D=[None]*4; K=[None]*3; A=[None]*3   # (size or (n,m), bound, ...)
    val=lambda: r.choice([1,1,2,-1,-2,3,-3,5])
    def out(op,res=0,x=0,y=0,a=0,n=0,ins=()): L.append("%s %d %d %d %d %d %d %s"%(op,res,x,y,a,n,len(ins)," ".join(map(str,ins))))
    dim=lambda: r.choice([p,q])
    def cvec(i):
        n=dim(); w=[]
        for j in range(n):
            if r.random()<dens: w+=[j,0 if r.random()<.08 else val()]
        out(r.choice(["cset","cset","cread"]),i,n=n,ins=w); C[i]=(n,5)
    def dvec(i): n=dim(); out("dset",i,ins=[val() if r.random()<dens else 0 for _ in range(n)]); D[i]=(n,5)
    def entries(n,m): return [(a,b,0 if r.random()<.08 else val()) for a in range(n) for b in range(m) if r.random()<dens]
    def kmat(i):
        n,m=r.choice([(p,q),(q,p),(p,p)]); e=entries(n,m); r.shuffle(e)
        if e and r.random()<.4: e+=[(a,b,val()*(r.random()<.8)) for a,b,_ in r.choices(e,k=r.randint(1,3))]
        out("kset",i,n,m,ins=sum(map(list,e),[])); K[i]=[(n,m),5,0]
    def amat(i):
        n,m=r.choice([(p,q),(q,p),(p,p)]); e=entries(n,m)
        if r.random()<.5: r.shuffle(e); out("aread",i,n,m,ins=sum(map(list,e),[]))
        else: e=sorted((x for x in e if x[2]),key=lambda x:(x[1],x[0])); out("aset",i,n,m,ins=sum(map(list,e),[]))
        A[i]=((n,m),5)
    for i in range(3): cvec(i)
    dvec(0); dvec(1); kmat(0); amat(0)
    for _ in range(r.choice([10,20,40])):
        i=r.randrange(4); j=r.randrange(3); c=[x for x in range(4) if C[x]]; d=[x for x in range(4) if D[x]]; kk=[x for x in range(3) if K[x]]; aa=[x for x in range(3) if A[x]]
        x=r.choice(c); y=r.choice(c); u=r.choice(d); v=r.choice(d); a=r.choice(aa); ki=r.choice(kk); n,m=A[a][0]
        # results go to a register that is not an operand
        rc=r.choice([z for z in range(4) if z not in (x,y)]); rd=r.choice([z for z in range(4) if z not in (u,v)]); ra=r.choice([z for z in range(3) if z!=a])
        op=r.choice(OPS); eps=r.choice([0,0,1,2,3])
        cx,cy,du,dv=C[x],C[y],D[u],D[v]; ok=lambda b: b<=CAP
        if op=="c": cvec(i)
        elif op=="d": dvec(i)
        elif op=="k": kmat(j)
        elif op=="a": amat(j)
        elif op=="kcanon": out(op,ki); K[ki][2]=1
        elif op=="ktrans": out(op,ki); K[ki][0]=K[ki][0][::-1]; K[ki][2]=1
        elif op=="ka": out(op,j,ki); A[j]=(K[ki][0],K[ki][1]); K[ki][2]=1
        elif op=="aio" and A[a][1]<10**5: out(op,ra,a=a); A[ra]=A[a]
        elif op=="dio" and du[1]<10**5: out(op,rd,u); D[rd]=du
        elif op=="c2c": out(op,rc,x); C[rc]=cx
        elif op=="d2d": out(op,rd,u); D[rd]=du
        elif op=="c2d": out(op,i,x); D[i]=cx
        elif op=="d2c": out(op,i,u); C[i]=du
        elif op=="colc": out(op,i,a=a,n=r.randrange(m)); C[i]=(n,A[a][1])
        elif op=="cold": out(op,i,a=a,n=r.randrange(m)); D[i]=(n,A[a][1])
        elif op in("onec","mall"): s=dim(); out(op,i,n=s); C[i]=(s,1)
        elif op=="oned": s=dim(); out(op,i,n=s); D[i]=(s,1)
        elif op=="zc": out(op,x); C[x]=(cx[0],0)
        elif op=="zd": out(op,u); D[u]=(du[0],0)
        elif op=="za": out(op,a); A[a]=(A[a][0],0)
        elif op=="zk": out(op,ki); K[ki][1]=0
        elif op in("mulcd","mulcc") and cx[0]==m and ok(cx[1]*A[a][1]*m):
            if op=="mulcd": out(op,i,x,a=a); D[i]=(n,cx[1]*A[a][1]*m)
            else: out(op,rc,x,a=a); C[rc]=(n,cx[1]*A[a][1]*m)
        elif op=="dA" and du[0]==n and ok(du[1]*A[a][1]*n): out(op,rd,u,a=a); D[rd]=(m,du[1]*A[a][1]*n)
        elif op=="cA" and cx[0]==n and ok(cx[1]*A[a][1]*n): out(op,i,x,a=a); D[i]=(m,cx[1]*A[a][1]*n)
        elif op=="cAc" and cx[0]==n and ok(cx[1]*A[a][1]*n): out(op,rc,x,a=a); C[rc]=(m,cx[1]*A[a][1]*n)
        elif op=="edd" and du[0]==dv[0] and ok(du[1]*dv[1]): out(op,rd,u,v); D[rd]=(du[0],du[1]*dv[1])
        elif op=="ecc" and cx[0]==cy[0] and ok(cx[1]*cy[1]): out(op,rc,x,y); C[rc]=(cx[0],cx[1]*cy[1])
        elif op=="edc" and du[0]==cy[0] and ok(du[1]*cy[1]): out(op,rd,u,y); D[rd]=(du[0],du[1]*cy[1])
        elif op=="ecolc" and cx[0]==n and ok(cx[1]*A[a][1]): out(op,rc,x,a=a,n=r.randrange(m)); C[rc]=(n,cx[1]*A[a][1])
        elif op=="ecold" and du[0]==n and ok(du[1]*A[a][1]): out(op,rd,u,a=a,n=r.randrange(m)); D[rd]=(n,du[1]*A[a][1])
        elif op=="max" and du[0]==dv[0]: out(op,rd,u,v); D[rd]=(du[0],max(du[1],dv[1]))
        elif op=="maxa" and D[rd] and D[rd][0]==du[0]: out(op,rd,u); D[rd]=(du[0],max(du[1],D[rd][1]))
        elif op in("add","sub") and cx[0]==cy[0] and ok(cx[1]+cy[1]): out(op,rc,x,y); C[rc]=(cx[0],cx[1]+cy[1])
        elif op in("cadd","csub") and cx[0]==cy[0] and ok(cx[1]+cy[1]): out(op,x,y); C[x]=(cx[0],cx[1]+cy[1])
        elif op=="cscale" and ok(3*cx[1]): out(op,x,n=r.choice([-2,-1,0,2,3])); C[x]=(cx[0],3*cx[1])
        elif op in("dadd","dsub") and du[0]==dv[0] and ok(du[1]+dv[1]): out(op,u,v); D[u]=(du[0],du[1]+dv[1])
        elif op=="dscale" and ok(3*du[1]): out(op,u,n=r.choice([-2,-1,0,2,3])); D[u]=(du[0],3*du[1])
        elif op in("n1c","nic","sc"): out(op,x=x)
        elif op in("nid","sd"): out(op,x=u)
        elif op=="idc" and du[0]==cy[0] and ok(du[1]*cy[1]*cy[0]): out(op,x=u,y=y)
        elif op=="icc" and cx[0]==cy[0] and ok(cx[1]*cy[1]*cy[0]): out(op,x=x,y=y)
        elif op=="icol" and cx[0]==n and ok(cx[1]*A[a][1]*n): out(op,x=x,a=a,n=r.randrange(m))
        elif op=="domd" and du[0]==dv[0]: out(op,x=u,y=v,n=eps)
        elif op=="domc" and cx[0]==cy[0]: out(op,x=x,y=y,n=eps)
        elif op=="getc": out(op,x=x,n=r.randrange(cx[0]))
        elif op=="geta": out(op,a=a,x=r.randrange(n),y=r.randrange(m))
        elif op=="getk" and K[ki][2]: out(op,ki,r.randrange(K[ki][0][0]),r.randrange(K[ki][0][1]))
        elif op=="fill": out(op,a=a,n=r.randrange(m))
        elif op=="dmat": e=entries(p,q); out(op,r.randrange(p),p,q,r.randrange(q),int(r.random()<.2),sum(map(list,e),[]))
        elif op=="mone": out(op,rc,x); C[rc]=(cx[0],1)
        elif op=="msub" and cx[0]==cy[0]: out(op,x=x,y=y)
        elif op=="mcd" and du[0]==cy[0]: out(op,rc,u,y); C[rc]=du
        elif op=="mcc" and cx[0]==cy[0]: out(op,rc,x,y); C[rc]=cx
        elif op=="mdom":
            s=[z for z in c if C[z][0]==cx[0]]; w=[r.choice(s) for _ in range(3)]; out(op,w[0],x,w[1],w[2],eps)
    return "\n".join(L)+"\n"
def pairs(full):
    """every two sparse vectors of a small size, and all that is done with two of them"""
    out=[]
    for n,V in ((1,(None,0,-1,1)),(2,(None,0,-1,1)),(3,(None,0,-1,1) if full else (None,-1,2))):
        vs=list(itertools.product(V,repeat=n))
        put=lambda i,v: "cset %d 0 0 0 %d %d %s"%(i,n,2*sum(x is not None for x in v)," ".join("%d %d"%(j,x) for j,x in enumerate(v) if x is not None))
        for v in vs:
            for w in vs: out.append([put(0,v),put(1,w),"add 2 0 1 0 0 0","sub 2 0 1 0 0 0","ecc 2 0 1 0 0 0","mcc 2 0 1 0 0 0","icc 0 0 1 0 0 0","domc 0 0 1 0 0 0","domc 0 0 1 0 1 0","msub 0 0 1 0 0 0"])
    return out
BASE=10**6
OPS=["c","d","k","a","kcanon","ktrans","ka","aio","dio","c2c","d2d","c2d","d2c","colc","cold","onec","mall","oned","zc","zd","za","zk","dA","cA","cAc","edd","edc","ecold","max","maxa","dadd","dsub","dscale",
     "n1c","nic","sc","nid","sd","idc","domd","getc","geta","getk","fill","dmat","mone","mcd"]+["mulcd","mulcc","ecc","ecolc","add","sub","cadd","csub","cscale","icc","icol","domc","msub","mcc","mdom"]*3
def batch(w,s,seed,ks,P):
    job=os.path.join(w,"job%d"%s); tr=os.path.join(w,"trace%d.ndjson"%s); open(tr,"w").close(); todo=list(ks); n=0
    while todo and n<5:
        open(job,"w").write("".join(program(random.Random(seed*100003+k),k) if k<BASE else "\n".join(["Run 0 0 0 0 0 0",json.dumps(dict(e="Problem",run=k),separators=(",",":"))]+sum(P[100*(k-BASE):100*(k-BASE+1)],[]))+"\n" for k in todo)); o=job+".out"
        p=subprocess.Popen([os.path.join(lib.V,"build","slax"),job,o],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,env=dict(os.environ,ASAN_OPTIONS="detect_leaks=0:hard_rss_limit_mb=2000"))
        try: p.wait(120)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); n=5
        t=open(o).read(); t=t[:t.rfind("\n")+1]; open(tr,"a").write(t)
        if p.returncode==0: break
        # the run that failed ends here; the others go on
        last=[json.loads(l)["run"] for l in t.split("\n") if '"Problem"' in l]; bad=last[-1] if last else todo[0]
        if not last: open(tr,"a").write(json.dumps(dict(e="Problem",run=bad),separators=(",",":"))+"\n")
        open(tr,"a").write(json.dumps(dict(e="Crash",sig=max(0,-p.returncode),rc=p.returncode),separators=(",",":"))+"\n")
        todo=todo[todo.index(bad)+1:]; n+=1
    return tr
def make(seed,n,w,shards=8):
    os.makedirs(w,exist_ok=True)
    P=pairs(n>10000); ks=list(range(n))+[BASE+i for i in range((len(P)+99)//100)]
    trs=lib.pmap(lambda s: batch(w,s,seed,ks[s::shards],P),list(range(shards)))
    return [(None,t) for t in trs],[dict(run=k,fam="algebra",opts={},model="") for k in ks]
