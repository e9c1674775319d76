import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
T={}
exec(open(V+"/tools/claims.py").read())
checks=[dict(property=p,quick_cmd="python3 tools/check.py %s quick"%p,thorough_cmd="python3 tools/check.py %s thorough"%p,
             evidence_file="evidence/%s.json"%p,technique=CLAIMS[p][1],level=CLAIMS[p][0],level_note=CLAIMS[p][2])
        for p in props if p in CLAIMS]
na=[dict(property=p,reason=NA.get(p,"no check yet")) for p in props if p not in CLAIMS]
m=dict(version=1,setup_cmd="python3 tools/build.py",hooks=dict(guard="none: no hooks were needed",enable="the harness uses the project's own classes; nothing in /repo is guarded",source_commits=[]),
       checks=checks,not_applicable=na,notes="Specifications are TLA+ (spec/*.tla), checked by TLC; see DESIGN.md.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
