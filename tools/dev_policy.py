import sys,os
sys.path.insert(0,os.path.dirname(__file__))
import lib,policy,time
seed=int(sys.argv[1]); n=int(sys.argv[2]); na=int(sys.argv[3]); props=sys.argv[4].split(",")
lib.build(); w=lib.workdir("devp"); jt,metas=policy.make(seed,n,na,w)
t=time.time(); lib.run_jobs([j for j,_ in jt]); print("runs",time.time()-t)
for _,tr in jt: policy.insert_files(tr)
t=time.time(); rs=lib.pmap(lambda x: lib.judge_trace("PolicyTrace",x[1],props,x[1]+".meta",timeout=150),jt)
print("tlc",time.time()-t,sum(r["states"] for r in rs))
for (j,tr),r in zip(jt,rs):
    for v in r["viol"]:
        m=[m for m in metas if m["run"]==v[3]][0]; print(tr[-13:],v,m["fam"],m["opts"])
