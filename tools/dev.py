"""dev.py MODULE GENERATOR SEED N PROPS: judge generated runs, dropping rejected ones, to see every kind of rejection"""
import sys,os,collections,time,importlib
sys.path.insert(0,os.path.dirname(__file__))
import lib
module,g,seed,n=sys.argv[1],importlib.import_module(sys.argv[2]),int(sys.argv[3]),int(sys.argv[4]); props=sys.argv[5].split(",")
lib.build(); w=lib.workdir("dev"+module); jt,metas=g.make(seed,n,w)
t=time.time(); lib.run_jobs([j for j,_ in jt if j]); print("runs",time.time()-t)
t=time.time(); seen=collections.Counter()
def one(x):
    cur=x[1]; out=[]
    for k in range(30):
        r=lib.judge_trace(module,cur,props,x[1]+".m%d"%k,timeout=400)
        if r["ok"]: return out,r["states"]
        out+=r["viol"]; drop={v[3] for v in r["viol"]}
        order,rs=lib.split_runs(cur); cur=x[1]+".rest%d"%k
        open(cur,"w").writelines(l for run in order if run not in drop for l in rs[run])
    return out,-1
for o,s in lib.pmap(one,jt):
    print(s,end=" ")
    for v in o:
        m=[m for m in metas if m["run"]==v[3]][0]; seen[v[1]]+=1
        if seen[v[1]]<=int(os.environ.get("SHOW","4")): print("\n",v,m["fam"],m["opts"])
print("\ntlc",time.time()-t,dict(seen))
