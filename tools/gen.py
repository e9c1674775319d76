"""Seeded generator of small models.  All probabilities are multiples of 1/8 so the
specification can use them exactly.  The Problem record written here (not anything the
program parsed) is what the TLA+ specifications take as the truth about the model."""
import random, json
VS=10**6; PS=10**9
class Prob: pass
def comp8(r,n,k=8,maxparts=3):
    """random composition of k over n slots with at most maxparts non-zero"""
    parts=r.randint(1,min(maxparts,n)); idx=r.sample(range(n),parts)
    v=[0]*n; left=k
    for j,i in enumerate(idx):
        if j==parts-1: v[i]=left
        else:
            x=r.randint(1,left-(parts-1-j)); v[i]=x; left-=x
    return v
def unit(n,i,k=8):
    v=[0]*n; v[i]=k; return v
def base(kind,S,A,O,disc):
    p=Prob(); p.kind=kind; p.S=S; p.A=A; p.O=O; p.disc=disc; p.fin=1; p.k=8
    return p
def rew(r,lo,hi): return r.randint(lo,hi)
def make_mdp(r,proper,S=None,A=None,disc=None):
    S=S or r.randint(3,8); A=A or r.randint(1,4); disc=disc or r.choice([.5,.75,.9,.95])
    p=base("mdp",S,A,1,disc); p.fam="mdp-proper" if proper else "mdp"
    nt=r.choice([1,1,2]) if proper else r.choice([0,0,1])
    nt=min(nt,S-2); terms=set(range(S-nt,S))
    p.T=[];p.R=[[0]*A for _ in range(S)]
    style=r.choice(["rand","det","chain"])
    for a in range(A):
        M=[]
        for s in range(S):
            if s in terms: M.append(unit(S,s)); continue
            if proper:
                v=comp8(r,S,6 if style!="chain" else 5,2)
                t=r.choice(sorted(terms)); v[t]+=8-sum(v)
            elif style=="det": v=unit(S,r.randrange(S))
            else: v=comp8(r,S,8,3)
            M.append(v)
        p.T.append(M)
    sign=r.choice(["neg","mixed","pos","mixed"])
    for s in range(S):
        if s in terms: continue
        for a in range(A):
            p.R[s][a]= rew(r,-10,-1) if sign=="neg" else rew(r,0,10) if sign=="pos" else rew(r,-10,10)
    p.Ob=[[[8] for _ in range(S)] for _ in range(A)]
    p.b0=unit(S,r.randrange(max(1,S-nt)))
    return p
def make_custom(r):
    """the built-in example model: a corridor of n places, moves succeed with probability 0.9 and cost 1, the last place ends it"""
    n=r.choice([1,2,2,3,4,5,6,8]); p=base("mdp",n,2,1,1); p.fam="mdp-custom"; p.k=10; p.leak=1; p.custom=n; p.b0=unit(n,0,10)
    def mv(x,d):
        if x==n-1 or (x==0 and d<0): return unit(n,x,10)
        v=[0]*n; v[x+d]=9; v[x]=1; return v
    p.T=[[mv(x,d) for x in range(n)] for d in (-1,1)]; p.R=[[0 if x==n-1 else -1]*2 for x in range(n)]; p.Ob=[[[10] for _ in range(n)] for _ in range(2)]
    return p
def make_graph_mdp(r,S=None):
    """mostly deterministic edges: rich cycle structure for the labelling strategies, still proper"""
    S=S or r.randint(6,12); A=r.randint(1,3); p=base("mdp",S,A,1,r.choice([.75,.9,.95])); p.fam="mdp-graph"
    p.T=[];p.R=[[0]*A for _ in range(S)]
    leak=r.choice([0,1])
    for a in range(A):
        M=[]
        for s in range(S):
            if s==S-1: M.append(unit(S,s)); continue
            v=[0]*S
            outs=r.choice([1,2,2,3]); cand=[r.randrange(max(0,s-4),min(S,s+4)) for _ in range(outs)]
            k=8-leak; v[S-1]+=leak
            for j,c in enumerate(cand):
                x=k//outs if j<outs-1 else k-(k//outs)*(outs-1); v[c]+=x
            M.append(v)
        p.T.append(M)
    for s in range(S-1):
        for a in range(A): p.R[s][a]=rew(r,-10,-1)
    p.Ob=[[[8] for _ in range(S)] for _ in range(A)]
    p.b0=unit(S,0); p.leak=leak
    return p
def make_ring(r,S=None):
    """large greedy closures: a long way through several hundred states, ways back, few costs, an exit at the end"""
    S=S or (r.randint(1050,1250) if r.random()<.12 else r.randint(210,420)); A=r.choice([1,1,2]) if S<1000 else 1; p=base("mdp",S,A,1,r.choice([.75,.9,.95])); p.fam="mdp-ring"; p.leak=1; p.big=1
    p.T=[];p.R=[[0]*A for _ in range(S)]; back=set(r.sample(range(S//4,S-1),r.randint(0,3)))|set([S-2] if r.random()<.7 else [])
    for a in range(A):
        M=[]
        for s in range(S):
            v=[0]*S
            if s==S-1: v[s]=8
            elif s in back:
                k=r.choice([2,4]); v[s+1]=8-k; v[r.choice([0,0,r.randrange(s)])]+=k
            elif r.random()<.15: v[s+1]=6; v[min(S-1,s+r.randint(2,4))]+=2
            else: v[s+1]=8
            M.append(v)
        p.T.append(M)
    for s in r.sample(range(S-1),r.randint(0,4))+r.sample(range(2*S//3,S-1),r.randint(0,3)):
        for a in range(A): p.R[s][a]=r.randint(-10,-1)
    p.Ob=[[[8] for _ in range(S)] for _ in range(A)]; p.b0=unit(S,0)
    return p
def make_horizon(r,kind):
    """every path ends in a zero-reward absorbing state after at most D steps: maxHorizon applies, also without discount"""
    D=r.randint(1,3); wide=[r.randint(1,3) for _ in range(D)]; S=sum(wide)+1; A=r.randint(1,3) if kind=="mdp" else 2
    p=base(kind,S,A,1 if kind=="mdp" else 2,r.choice([1,1,1,.95,.75])); p.fam=kind+"-horizon"; p.leak=1; p.horizon=D+r.choice([0,0,1,4])
    lay=[]; n=0
    for w in wide: lay.append(list(range(n,n+w))); n+=w
    lay.append([S-1]); p.T=[]; p.Ob=[]
    of={x:i for i,l in enumerate(lay) for x in l}
    for a in range(A):
        M=[]
        for s in range(S):
            v=[0]*S
            if s==S-1: v[s]=8
            else:
                later=lay[of[s]+1]+([S-1] if r.random()<.3 else []); later=sorted(set(later))
                for x,k in zip(later,comp8(r,len(later),8,3)): v[x]=k
            M.append(v)
        p.T.append(M)
        p.Ob.append([[8]]*S if kind=="mdp" else [comp8(r,2,8,2) for _ in range(S)])
    sign=r.choice(["neg","mixed","pos","mixed"]); p.R=[[0]*A for _ in range(S)]
    for s in range(S-1):
        for a in range(A): p.R[s][a]=rew(r,-10,-1) if sign=="neg" else rew(r,0,10) if sign=="pos" else rew(r,-10,10)
    if kind=="mdp": p.b0=unit(S,r.choice(lay[0]))
    else: p.b0=comp8(r,len(lay[0]),8,3)+[0]*(S-len(lay[0]))
    return p
def detmap(r,S,terms,perm=False):
    if perm:
        f=list(range(S)); r.shuffle(f)
    else: f=[r.randrange(S) for _ in range(S)]
    for t in terms: f[t]=t
    return f
def partition(r,S,O): return [r.randrange(O) for _ in range(S)]
def make_pomdp(r,fam,S=None,A=None,disc=None):
    S=S or r.randint(2,5); A=A or r.randint(2,3); disc=disc or r.choice([.5,.75,.9,.9,.95])
    p=base("pomdp",S,A,1,disc); p.fam=fam
    nt=r.choice([0,1]) if S>=3 else 0
    if fam=="full-proper": nt=max(1,nt) if S>=2 else 0
    terms=list(range(S-nt,S)); p.T=[];p.Ob=[]
    if fam in("full","full-proper"):          # observation reveals the state (labels permuted per action)
        p.O=S
        for a in range(A):
            M=[]
            for s in range(S):
                if s in terms: M.append(unit(S,s)); continue
                if fam=="full-proper":
                    v=comp8(r,S,5,2); v[S-1]+=3
                else: v=comp8(r,S,8,3)
                M.append(v)
            p.T.append(M)
            perm=list(range(S)); r.shuffle(perm)
            p.Ob.append([unit(S,perm[s]) for s in range(S)])
    elif fam in("map","map-proper"):         # deterministic moves / resets, deterministic or reset-noisy observations
        p.O=r.randint(1,3)
        for a in range(A):
            reset=r.random()<.45
            if reset:
                mu=comp8(r,S,8,3)
                if terms and r.random()<.5: pass
                M=[unit(S,s) if s in terms else list(mu) for s in range(S)]
                if terms:   # terminals absorb: keep finiteness by making the reset apply to the rest only
                    pass
                p.T.append(M)
                if not terms and r.random()<.6: p.Ob.append([comp8(r,p.O,8,3) for s in range(S)])
                else:
                    q=partition(r,S,p.O); p.Ob.append([unit(p.O,q[s]) for s in range(S)])
            else:
                f=detmap(r,S,terms,perm=r.random()<.5)
                p.T.append([unit(S,f[s]) for s in range(S)])
                q=partition(r,S,p.O); p.Ob.append([unit(p.O,q[s]) for s in range(S)])
    elif fam=="blind":                        # no information at all, deterministic moves
        p.O=1
        for a in range(A):
            if r.random()<.3:
                mu=comp8(r,S,8,3); M=[list(mu) for s in range(S)] ; terms=[]
            else:
                f=detmap(r,S,[],perm=r.random()<.5); M=[unit(S,f[s]) for s in range(S)]
            p.T.append(M); p.Ob.append([[8] for _ in range(S)])
        terms=[]
    elif fam=="regime":                       # a hidden constant that noisy observations reveal: beliefs lose all but rounding of a state
        G=r.choice([2,2,3]); X=r.choice([1,2,2]); S=p.S=G*X; terms=[]; p.fin=0; p.O=2; p.k=1024; K=1024; p.fam+=""
        A=p.A=r.randint(2,3)
        eps=[r.choice([1,3,16,64,128]) for _ in range(G)]
        for a in range(A):
            if r.random()<.5: f=[r.randrange(X) for _ in range(X)]; mv=[unit(X,f[x],K) for x in range(X)]
            else: mv=[comp8(r,X,K,2) for x in range(X)]
            p.T.append([[(mv[x][t%X] if t//X==g else 0) for t in range(S)] for g in range(G) for x in range(X)])
            e=[x if r.random()<.8 else 512 for x in eps]
            p.Ob.append([[K-e[g],e[g]] if g==0 or (g==2 and r.random()<.5) else [e[g],K-e[g]] for g in range(G) for x in range(X)])
    else:                                     # general noisy POMDP: infinitely many beliefs
        p.O=r.randint(2,3); p.fin=0
        for a in range(A):
            p.T.append([unit(S,s) if s in terms else comp8(r,S,8,3) for s in range(S)])
            p.Ob.append([comp8(r,p.O,8,p.O) for s in range(S)])
    p.R=[[0]*A for _ in range(S)]
    sign=r.choice(["neg","mixed","pos","mixed"])
    for s in range(S):
        if s in terms: continue
        for a in range(A):
            p.R[s][a]= rew(r,-10,-1) if sign=="neg" else rew(r,0,10) if sign=="pos" else rew(r,-10,10)
    nn=S-len(terms)
    if fam=="regime":
        p.b0=[0]*S
        for g in range(S//X): p.b0[g*X]=1024//(S//X)
        p.b0[0]+=1024-sum(p.b0)
    elif fam in("full","full-proper"): p.b0=comp8(r,nn,8,3)+[0]*len(terms)
    else: p.b0=comp8(r,nn if r.random()<.7 else S,8,4); p.b0+= [0]*(S-len(p.b0))
    return p
def skew(p,r):
    """the same model in units of 1/1024, with some probabilities very close to 0 and 1"""
    K=1024; f=K//p.k; p.k=K; p.fam+="-skew"
    sc=lambda v:[x*f for x in v]
    p.T=[[sc(v) for v in M] for M in p.T]; p.Ob=[[sc(v) for v in M] for M in p.Ob]; p.b0=sc(p.b0)
    def tilt(v):
        big=[i for i,x in enumerate(v) if x>0]
        if len(big)<2: return
        m=r.choice(big); rest=[i for i in big if i!=m]; left=K
        for i in rest: v[i]=r.choice([1,1,2,5]); left-=v[i]
        v[m]=left
    if p.kind=="pomdp": tilt(p.b0)
    rows=[v for M in p.T for v in M]
    if p.fam.startswith(("mdp","full")):
        for v in rows:
            if r.random()<.5: tilt(v)
    else:
        for M in p.T:     # a reset distribution is the same in every row
            if len({tuple(v) for v in M})==1: v=M[0]; tilt(v); M[:]=[list(v) for _ in M]
    return p
def from8(p):
    if getattr(p,"big",0): return dict(S=p.S,A=p.A,O=p.O,g=round(p.disc*PS),kind=p.kind,fin=p.fin,fam=p.fam) # tables not needed by Search
    return dict(S=p.S,A=p.A,O=p.O,g=round(p.disc*PS),
      b0=[x*PS//p.k for x in p.b0],
      Tt=[[[M[s][t]*PS//p.k for s in range(p.S)] for t in range(p.S)] for M in p.T],
      Oc=[[[M[s][o]*PS//p.k for s in range(p.S)] for o in range(p.O)] for M in p.Ob],
      Rc=[[p.R[s][a]*VS for s in range(p.S)] for a in range(p.A)],
      T8=p.T,O8=p.Ob,b8=p.b0,kind=p.kind,fin=p.fin,fam=p.fam,k=p.k)
def fmt8(x,k=8): return "%.12g"%(x/float(k))
def model_text(p):
    """plain Cassandra text (numeric, fully explicit)"""
    L=["discount: %g"%p.disc,"values: reward","states: %d"%p.S,"actions: %d"%p.A]
    if p.kind=="pomdp":
        L.append("observations: %d"%p.O)
        L.append("start: "+" ".join(fmt8(x,p.k) for x in p.b0))
    else:
        L.append("start: %d"%p.b0.index(p.k))
    for a in range(p.A):
        for s in range(p.S):
            for t in range(p.S):
                if p.T[a][s][t]: L.append("T: %d : %d : %d %s"%(a,s,t,fmt8(p.T[a][s][t],p.k)))
    if p.kind=="pomdp":
        for a in range(p.A):
            for s in range(p.S):
                for o in range(p.O):
                    if p.Ob[a][s][o]: L.append("O: %d : %d : %d %s"%(a,s,o,fmt8(p.Ob[a][s][o],p.k)))
    for a in range(p.A):
        for s in range(p.S):
            if p.R[s][a]: L.append(("R: %d : %d : * : * %d" if p.kind=="pomdp" else "R: %d : %d : * %d")%(a,s,p.R[s][a]))
    return "\n".join(L)+"\n"
