#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: no answer."""
import sys, os, json, time, traceback, importlib
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import lib
KNOWN=os.path.join(lib.V,"known-findings.txt")
def known(prop):
    out=[]
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l=l.strip()
            if l.startswith("known: property=%s "%prop): out.append(l.split(" ",2)[2])
    return out
def main():
    prop=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick")
    seed=int(os.environ.get("VERIF_SEED","1")); t0=time.time()
    import checks
    w=lib.workdir(prop+"-"+tier)
    try:
        lib.build()
        r=checks.CHECKS[prop](prop,tier,seed,w)
    except lib.CheckError as e:
        sys.stderr.write("CHECK ERROR %s: %s\n"%(prop,e)); return 3
    except Exception:
        traceback.print_exc(); return 3
    # r: level, coverage dict, violations [(key,text,replay)]
    kn=known(prop); bad=[]
    for key,text,replay in r["violations"]:
        hit=[k for k in kn if k.split(" ")[0]==key]
        if hit: print("KNOWN-FINDING: property=%s %s"%(prop,hit[0]))
        else: bad.append((key,text,replay))
    ev=dict(property=prop,tier=tier,seed=seed,level=r["level"],coverage=r["coverage"],wall_s=round(time.time()-t0,2),
            violations=len(bad),assumptions=r.get("assumptions",[]))
    os.makedirs(os.path.join(lib.V,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(lib.V,"evidence",prop+".json"),"w"),indent=1,sort_keys=True)
    if bad:
        for key,text,replay in bad[:20]: print("  %s: %s (%s)"%(prop,text,key))
        print("VIOLATION property=%s replay=%s"%(prop,bad[0][2])); return 1
    print("OK property=%s %s"%(prop,json.dumps({k:v for k,v in r["coverage"].items() if isinstance(v,int)})))
    return 0
if __name__=="__main__": sys.exit(main())
