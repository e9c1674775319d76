import sys,os,collections,time
sys.path.insert(0,os.path.dirname(__file__))
import lib,parse
seed=int(sys.argv[1]); n=int(sys.argv[2]); props=sys.argv[3].split(",")
lib.build(); w=lib.workdir("devparse"); jt,metas=parse.make(seed,n,w)
t=time.time(); lib.run_jobs([j for j,_ in jt]); print("runs",time.time()-t)
def strip(tr):
    import checks
t=time.time()
import checks
seen=collections.Counter()
def one(x):
    cur=x[1]; out=[]
    for k in range(30):
        r=lib.judge_trace("ParseTrace",cur,props,x[1]+".m%d"%k,timeout=200)
        if r["ok"]: return out,r["states"]
        out+=r["viol"]; drop={v[3] for v in r["viol"]}
        order,rs=lib.split_runs(cur); cur=x[1]+".rest%d"%k
        open(cur,"w").writelines(l for run in order if run not in drop for l in rs[run])
    return out,-1
for o,s in lib.pmap(one,jt):
    print(s,end=" ")
    for v in o:
        m=[m for m in metas if m["run"]==v[3]][0]; seen[v[1]]+=1
        if seen[v[1]]<=6: print("\n",v,m["fam"],m["opts"])
print("\ntlc",time.time()-t,dict(seen))
