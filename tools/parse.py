"""Model files for the parsers: token streams of every form the language has, with random
layout, plus malformed variants.  The specification (Cassandra.tla) decides what they mean."""
import os, json, random
ONE=10**6
KW=["discount","values","states","actions","observations","T","O","R","uniform","identity","reward","cost","reset","start","include","exclude"]
NAMES=["left","right","s0","s1","s2","Rain","x_y","O-2","T1","listen","state","rewards","a","b","c","hear-left","Tt","uniformly","z9","discounts","longer-name-with-many-characters_1234567890"]
def I(n): return dict(k="int",v=n*ONE,x="")
def F(v): return dict(k="flt",v=v,x="")
def S(x): return dict(k="str",v=0,x=x)
def K(k): return dict(k=k,v=0,x="")
COL=K(":"); STAR=K("*")
def num(r,v):
    """a number token (value in millionths): integer literal where possible, sometimes"""
    if v%ONE==0 and r.random()<.6: return [I(v//ONE)]
    return [F(v)]
def rnum(r,v):
    if v<0: return [K("-")]+num(r,-v)
    if r.random()<.05: return [K("+")]+num(r,v)
    return num(r,v)
GRID=[125000,250000,500000,100000,200000,50000,300000]
def dist(r,n):
    """a distribution over n outcomes with short decimals"""
    if r.random()<.35: 
        v=[0]*n; v[r.randrange(n)]=ONE; return v
    k=r.randint(1,n); idx=r.sample(range(n),k); v=[0]*n; left=20
    for j,i in enumerate(idx):
        x=left if j==k-1 else r.randint(0,left); v[i]=x*50000; left-=x
    if r.random()<.04: # within the tolerance
        i=max(range(n),key=lambda i:v[i]); v[i]-=r.choice([1,3,5])
    return v
class M: pass
def elem(r,m,what,i):
    names=m.names[what]
    if i is None: return STAR
    return S(names[i]) if names and r.random()<.6 else I(i)
def pick(r,n,star=.3): return None if r.random()<star else r.randrange(n)
def rewv(r): return r.choice([0,0,r.randint(-20,20)*ONE,r.randint(-900,900)*1000,r.randint(-100,100)*100000,ONE,-ONE])
def full_file(r,kind,big=False):
    m=M(); m.kind=kind
    m.S=r.randint(1,5); m.A=r.randint(1,3); m.O=r.randint(1,4) if kind=="pomdp" else 0
    m.names={}
    pre=[]
    def decl(kw,what,n):
        if r.random()<.5:
            ns=r.sample(NAMES,n); m.names[what]=ns; return [K(kw),COL]+[S(x) for x in ns]
        m.names[what]=None; return [K(kw),COL,I(n)]
    g=r.choice([950000,900000,500000,990000,0,ONE]) 
    pre.append([K("discount"),COL]+num(r,g)); m.cost=r.random()<.15
    pre.append([K("values"),COL,K("cost" if m.cost else "reward")])
    pre.append(decl("states","s",m.S)); pre.append(decl("actions","a",m.A))
    if kind=="pomdp": pre.append(decl("observations","o",m.O))
    r.shuffle(pre); st=[x for d in pre for x in d]
    # start
    if kind=="pomdp":
        c=r.randrange(7)
        if c==0: pass
        elif c==1: st+=[K("start"),COL,K("uniform")]
        elif c==2 and m.names["s"]: st+=[K("start"),COL,S(r.choice(m.names["s"]))]
        elif c==3:
            k=r.randint(1,m.S); st+=[K("start"),K("include"),COL]+[elem(r,m,"s",i) for i in r.sample(range(m.S),k)]
        elif c==4 and m.S>1:
            k=r.randint(1,m.S-1); st+=[K("start"),K("exclude"),COL]+[elem(r,m,"s",i) for i in r.sample(range(m.S),k)]
        else: st+=[K("start"),COL]+[x for v in dist(r,m.S) for x in num(r,v)]
        m.hasstart=True
    else:
        if m.names["s"] and r.random()<.5: st+=[K("start"),COL,S(r.choice(m.names["s"]))]
        else: st+=[K("start"),COL,I(r.randrange(m.S))]
    E=lambda w,i: elem(r,m,w,i)
    def nums(vs): return [x for v in vs for x in num(r,v)]
    def trow(a,s,base=False):
        h=[K("T"),COL,E("a",a),COL,E("s",s)]
        c=r.randrange(8)
        if c==0: return h+[K("uniform")]
        if c==1 and kind=="pomdp": return h+[K("reset")]
        d=dist(r,m.S)
        if c in(2,3): # single entries, in random order, zeros included because they override
            out=[]
            if r.random()<.3: out+=[K("T"),COL,E("a",a),COL,E("s",s),COL,STAR]+num(r,0); idx=[i for i in range(m.S) if d[i]]
            else: idx=list(range(m.S))
            r.shuffle(idx)
            for i in idx: out+=[K("T"),COL,E("a",a),COL,E("s",s),COL,E("s",i)]+num(r,d[i])
            return out
        return h+nums(d)
    def tall(a):
        h=[K("T"),COL,E("a",a)]; c=r.randrange(4)
        if c==0: return h+[K("uniform")]
        if c==1: return h+[K("identity")]
        return h+nums([v for _ in range(m.S) for v in dist(r,m.S)])
    def orow(a,s):
        h=[K("O"),COL,E("a",a),COL,E("s",s)]; c=r.randrange(6)
        if c==0: return h+[K("uniform")]
        d=dist(r,m.O)
        if c in(1,2):
            out=[]
            if r.random()<.3: out+=h+[COL,STAR]+num(r,0); idx=[i for i in range(m.O) if d[i]]
            else: idx=list(range(m.O))
            r.shuffle(idx)
            for i in idx: out+=[K("O"),COL,E("a",a),COL,E("s",s),COL,E("o",i)]+num(r,d[i])
            return out
        return h+nums(d)
    def oall(a):
        h=[K("O"),COL,E("a",a)]
        if r.random()<.3: return h+[K("uniform")]
        return h+nums([v for _ in range(m.S) for v in dist(r,m.O)])
    def rew():
        a=pick(r,m.A); s=pick(r,m.S); t=pick(r,m.S,.5); o=pick(r,m.O,.6) if kind=="pomdp" else None
        h=[K("R"),COL,E("a",a)]; n=lambda k: [x for _ in range(k) for x in rnum(r,rewv(r))]
        c=r.randrange(8)
        if kind=="pomdp":
            if c==0: return h+[COL,E("s",s)]+n(m.S*m.O)
            if c==1: return h+[COL,E("s",s),COL,E("s",t)]+n(m.O)
            return h+[COL,E("s",s),COL,E("s",t),COL,E("o",o)]+n(1)
        if c==0: return h+n(m.S*m.S)
        if c in(1,2): return h+[COL,E("s",s)]+n(m.S)
        return h+[COL,E("s",s),COL,E("s",t)]+n(1)
    body=[]
    # cover everything once (wildcards or in pieces), then override
    def cover(all_,row):
        c=r.randrange(4); out=[]
        if c==0: out.append(row(None,None))
        elif c==1: out.append(all_(None))
        elif c==2: out+= [all_(a) for a in r.sample(range(m.A),m.A)]
        else:
            if r.random()<.5: out+=[row(None,s) for s in r.sample(range(m.S),m.S)]
            else: out+=[row(a,None) for a in r.sample(range(m.A),m.A)]
        for _ in range(r.choice([0,1,2,4])): out.append(row(pick(r,m.A),pick(r,m.S)))
        return out
    seqs=[cover(tall,trow)]
    if kind=="pomdp": seqs.append(cover(oall,orow))
    seqs.append([rew() for _ in range(r.choice([0,1,2,3,5,8]))])
    while any(seqs):
        q=r.choice([x for x in seqs if x]); body+=q.pop(0)
    m.toks=st+body; m.lines=[]
    return m
def mutate(r,toks):
    """a small change that usually makes the file malformed"""
    t=list(toks); pool=[I(0),I(1),I(7),F(500000),S("nosuch"),COL,STAR,K("-"),K("+"),K("ill")]+[K(k) for k in KW]
    c=r.randrange(9); i=r.randrange(len(t))
    if c==0: del t[i]
    elif c==1: t.insert(i,r.choice(pool))
    elif c==2: t[i]=r.choice(pool)
    elif c==3 and i+1<len(t): t[i],t[i+1]=t[i+1],t[i]
    elif c==4: t=t[:i+1]
    elif c in(5,6): # a number gets another value
        js=[j for j,x in enumerate(t) if x["k"] in("int","flt")]
        if js:
            j=r.choice(js); v=t[j]["v"]; t[j]=r.choice([F(v+10000),F(max(0,v-10000)),I(v//ONE+1),F(v+ONE),I(0),F(1100000)])
    elif c==7: # drop a statement
        hs=[j for j,x in enumerate(t) if x["k"] in("discount","values","states","actions","observations","start","T","O","R")]
        if hs:
            j=r.choice(hs); e=min([h for h in hs if h>j]+[len(t)]); del t[j:e]
    else: # repeat a number or name
        js=[j for j,x in enumerate(t) if x["k"] in("int","flt","str")]
        if js: j=r.choice(js); t.insert(j,t[j])
    return t
def lit(r,tk,fast=False):
    k=tk["k"]
    if k=="int": return str(tk["v"]//ONE)
    if k=="flt":
        v=tk["v"]; s="%d.%06d"%(v//ONE,v%ONE); c=r.randrange(5)
        if c==0: return s
        s=s.rstrip("0")
        if c==1: return s if not s.endswith(".") else s+r.choice(["","0"])
        if c==2: return (s if not s.endswith(".") else s+"0")+r.choice(["e0","E+0","e-00"])
        if c==3 and v<2**31: return "%d%s"%(v,r.choice(["e-6","E-6","e-06"]))
        return s if not s.endswith(".") else s+"0"
    if k=="str": return tk["x"]
    if k=="ill": return r.choice("@&;%!?[]{}=,/")
    return k
WORD={"int","flt","str"}|set(KW)
def render(r,toks):
    out=[]; prev=None
    style=r.randrange(3)
    for i,t in enumerate(toks):
        if prev is not None:
            need=(prev in WORD and t["k"] in WORD) or (prev=="str" and t["k"]=="-") or (prev in("int","flt") and t["k"] in("-","+"))or(prev in KW and t["k"] in("-","+"))
            head=t["k"] in("discount","values","states","actions","observations","start","T","O","R")
            if head and style!=2: w=r.choice(["\n","\n","\n\n","\r\n"," # note: T : 0 x\n","\n# comment 0.5 *\n"])
            elif need: w=r.choice([" "," "," ","  ","\t","\n"]) if style else r.choice([" ","\n"])
            else: w=r.choice([" ",""," ","\t"]) if style else " "
            if style==2 and r.random()<.05: w+="#c\n"
            out.append(w)
        out.append(lit(r,t)); prev=t["k"]
    return r.choice(["","# header\n","\n"])+"".join(out)+r.choice(["","\n","\n\n","\n# end"])
def fast_file(r,kind):
    m=M(); m.kind=kind; m.S=r.randint(2,5); m.A=r.randint(1,3); m.O=r.randint(1,4) if kind=="pomdp" else 0
    pre=[[K("discount"),COL]+num(r,r.choice([950000,900000,500000,0])),[K("values"),COL,K("reward")],[K("actions"),COL,I(m.A)]]
    if kind=="pomdp": pre.append([K("observations"),COL,I(m.O)])
    r.shuffle(pre); i=r.randint(0,len(pre)); pre.insert(i,[K("states"),COL,I(m.S)]); j=r.randint(i+1,len(pre))
    both=r.random()<.6
    if both: j=len(pre) # the full parser wants the start statement last
    if kind=="pomdp":
        if r.random()<.3 and not both: s=[K("start"),COL,I(r.randrange(m.S))]
        else: s=[K("start"),COL]+[x for v in dist(r,m.S) for x in num(r,v)]
    else: s=[K("start"),COL,I(r.randrange(m.S))]
    pre.insert(j,s)
    body=[]
    def rl(): 
        st=[K("R"),COL,I(r.randrange(m.A)),COL,I(r.randrange(m.S)),COL,STAR]
        if kind=="pomdp": st+=[COL,STAR]
        return st+rnum(r,rewv(r))
    for a in range(m.A):
        for s in range(m.S):
            for what,n in (("T",m.S),("O",m.O)):
                if not n: continue
                d=dist(r,n); rows=[[K(what),COL,I(a),COL,I(s),COL,I(i)]+num(r,d[i]) for i in range(n) if d[i] or r.random()<.1]
                if r.random()<.04: # an entry stated twice: the last statement counts
                    w=r.choice(rows); w2=w[:-1]+[F(r.choice([0,300000,ONE]))]; rows.insert(rows.index(w),w2)
                body+=rows
    if r.random()<.5: r.shuffle(body) if not any(body.count(x)>1 for x in body) else None
    for _ in range(r.choice([0,1,3,6])): body.insert(r.randint(0,len(body)),rl())
    m.lines=pre+body
    return m
def render_fast(r,lines):
    out=[]
    for L in lines:
        if r.random()<.05: out.append("")
        if r.random()<.05: out.append("# a comment: T 0")
        s=""
        for i,t in enumerate(L):
            x=lit(r,t)
            if i==0: s=x
            elif i==1 and t["k"]==":" : s+=":"
            elif L[i-1]["k"] in("-","+"): s+=x
            else: s+=r.choice([" "," "," ","  "])+x
        out.append(s+r.choice(["","",""," ","\t","\r"]))
    return "\n".join(out)+r.choice(["\n","","\n\n"])
def mutate_fast(r,lines):
    L=[list(x) for x in lines]; i=r.randrange(len(L)); c=r.randrange(7)
    if c==0: del L[i]
    elif c==1: L.insert(r.randint(0,len(L)),L[i])
    elif c==2: j=r.randrange(len(L)); L[i],L[j]=L[j],L[i]
    elif c==3: L=L[:i]
    elif c==4:
        js=[j for j,x in enumerate(L[i]) if x["k"] in("int","flt")]
        if js:
            j=r.choice(js); v=L[i][j]["v"]; L[i][j:j+1]=r.choice([[F(v+10000)],[I(v//ONE+1)],[I(7)],[F(v+ONE)],[I(0)],[K("-"),F(max(v,1))],[S("nosuch")],[STAR]])
    elif c==5: L[i].append(r.choice([I(0),F(500000),COL,S("x"),STAR]))
    else:
        j=r.randrange(len(L[i])); del L[i][j]
    return [x for x in L if x]
def make(seed,n,w,shards=8,which=("full","fast"),malformed=.4):
    os.makedirs(w,exist_ok=True)
    r=random.Random(seed); jobs=[[] for _ in range(shards)]; metas=[]; good=[]
    for k in range(n):
        kind=r.choice(["pomdp","pomdp","mdp"]); bad=r.random()<malformed
        fast=r.random()<.45
        if fast:
            m=None; m=fast_file(r,kind); lines=m.lines
            if bad: lines=mutate_fast(r,lines)
            if not lines: continue
            text=render_fast(r,lines); parsers=["fast"]; toks=[t for L in lines for t in L]
            if r.random()<.6: parsers.append("full")
        else:
            m=full_file(r,kind); toks=m.toks; lines=[]
            if bad:
                toks=mutate(r,toks)
                if r.random()<.3 and toks: toks=mutate(r,toks)
            if r.random()<.03: kind="mdp" if kind=="pomdp" else "pomdp"
            text=render(r,toks); parsers=["full"]
        own=kind==m.kind
        f=os.path.join(w,"f%05d.%s"%(k,kind)); open(f,"w").write(text)
        for p in parsers:
            run=2*k+(p=="full"); pf=os.path.join(w,"f%05d.%s.problem"%(k,p))
            open(pf,"w").write(json.dumps(dict(e="Problem",run=run,kind=kind,parser=p,toks=toks if p=="full" else [],lines=lines if p=="fast" else []),separators=(",",":"))+"\n")
            prev=" "+r.choice(good) if good and r.random()<.3 else ""
            jobs[k%shards].append("%s parse %s %s %s %s%s"%(os.path.join(w,"trace%d.ndjson"%(k%shards)),pf,f,kind,p,prev))
            metas.append(dict(run=run,fam=kind+"-"+p,opts=dict(file=f,malformed=bad),model=f))
        if not bad and not fast and own: good.append(f)
    jt=[]
    for i,j in enumerate(jobs):
        jf=os.path.join(w,"jobs%d"%i); open(jf,"w").write("\n".join(j)+"\n"); jt.append((jf,os.path.join(w,"trace%d.ndjson"%i)))
    return jt,metas
