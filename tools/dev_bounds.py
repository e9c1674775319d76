import sys,os,json
sys.path.insert(0,os.path.dirname(__file__))
import lib,runs,time
seed=int(sys.argv[1]); n=int(sys.argv[2]); props=sys.argv[3].split(",")
lib.build()
w=lib.workdir("dev")
kw=eval(sys.argv[5]) if len(sys.argv)>5 else {}
jt,metas=runs.make_runs(seed,n,w,**kw)
t=time.time(); lib.run_jobs([j for j,_ in jt]); print("runs",time.time()-t)
for f in os.listdir(w):
    if f.endswith(".log"): os.path.getsize(os.path.join(w,f))
t=time.time()
mod=sys.argv[4] if len(sys.argv)>4 else "BoundsTrace"
rs=lib.pmap(lambda x: lib.judge_trace(mod,x[1],props,x[1]+".meta"),jt)
print("tlc",time.time()-t, sum(r["states"] for r in rs))
for (j,tr),r in zip(jt,rs):
    if not r["ok"]:
        for v in r["viol"]:
            m=[m for m in metas if m["run"]==v[3]][0]
            print(tr,v,m["fam"],m["opts"])
