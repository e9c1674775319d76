"""Shared pieces of the checks: building, running the harness, running TLC, evidence."""
import os, sys, re, json, subprocess, shutil, time, tempfile
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B=os.path.join(V,"build"); SPEC=os.path.join(V,"spec")
ZH=os.path.join(B,"zh"); ZMDP=os.path.join(B,"zmdp")
REPO=os.environ.get("ZMDP_REPO","/repo")
CP="/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:"+os.path.join(B,"classes")
NPROC=8
class CheckError(Exception): pass
def build():
    r=subprocess.run([sys.executable,os.path.join(V,"tools","build.py")])
    if r.returncode: raise CheckError("build failed")
def workdir(name):
    w=os.path.join(V,"work",name)
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w); return w
def pmap(f,xs,n=NPROC):
    with ThreadPoolExecutor(n) as ex: return list(ex.map(f,xs))
def tlc(module,cfg,meta,env=None,workers=1,heap="3g",timeout=800,extra=()):
    """returns (rc, output, stats)"""
    e=dict(os.environ); e.update(env or {})
    os.makedirs(meta,exist_ok=True)
    gc="-XX:+UseSerialGC" if workers==1 else "-XX:+UseParallelGC"
    cmd=["java",gc,"-Xmx"+heap,"-Xss64m","-XX:TieredStopAtLevel=4","-cp",CP,"tlc2.TLC","-workers",str(workers),"-deadlock",
         "-config",cfg,"-metadir",meta,"-noGenerateSpecTE",*extra,os.path.join(SPEC,module+".tla")]
    try: r=subprocess.run(cmd,env=e,cwd=SPEC,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timed out on %s"%module)
    o=r.stdout
    m=re.findall(r"(\d+) states generated, (\d+) distinct states found",o)
    st=dict(generated=int(m[-1][0]),distinct=int(m[-1][1])) if m else dict(generated=0,distinct=0)
    return r.returncode,o,st
def write_cfg(path,lines): open(path,"w").write("\n".join(lines)+"\n")
def run_jobs(jobfiles):
    def one(j):
        r=subprocess.run([ZH,"batch",j],stdout=subprocess.DEVNULL,stderr=subprocess.PIPE)
        if r.returncode: raise CheckError("harness failed on %s: %s"%(j,r.stderr[-500:]))
    pmap(one,jobfiles)
TUP=re.compile(r'<<\s*"(P\d\d)",\s*"([^"]*)",\s*(\d+),\s*(\d+)\s*>>')
def judge_trace(module,trace,props,meta,consts=(),timeout=800):
    """run the deterministic trace machine over one recorded trace.
    returns dict(ok, viol=[(prop,why,line,run)], states)"""
    cfg=meta+".cfg"; os.makedirs(os.path.dirname(cfg),exist_ok=True)
    write_cfg(cfg,["SPECIFICATION Spec","CONSTANT Props = {%s}"%",".join('"%s"'%p for p in props),*consts,
                   "INVARIANT NoViolation","POSTCONDITION Complete","ALIAS Alias","CHECK_DEADLOCK FALSE"])
    rc,o,st=tlc(module,cfg,meta,env={"TRACE":trace},timeout=timeout)
    if rc==0: return dict(ok=True,viol=[],states=st["distinct"],generated=st["generated"])
    if rc==12 and "Invariant NoViolation is violated" in o:
        v=sorted(set((a,b,int(c),int(d)) for a,b,c,d in TUP.findall(o)))
        if not v: raise CheckError("violation without a label:\n"+o[-3000:])
        return dict(ok=False,viol=v,states=st["distinct"],generated=st["generated"])
    i=o.find("Error:"); raise CheckError("TLC rc=%d on %s\n%s\n...\n%s"%(rc,trace,o[i:i+600],o[-600:]))
def split_runs(trace):
    """lines of every run in a trace: run number -> list of lines"""
    runs={}; cur=None; order=[]
    for line in open(trace):
        if not line.strip(): continue
        if '"e":"Problem"' in line:
            cur=json.loads(line)["run"]; runs[cur]=[]; order.append(cur)
        runs[cur].append(line)
    return order,runs
