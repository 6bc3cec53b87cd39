#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
import checks
with open(V+"/properties.jsonl","w") as f:
    for i,p in sorted(checks.PROPS.items()):
        assert len(p["title"])<=80,i
        f.write(json.dumps({k:p[k] for k in("id","title","statement","quantifier","why_tests_cant","anchors")})+"\n")
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":[{"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"python3 check.py {i} --thorough","technique":c.get("technique","symbolic execution of the real LLVM bitcode with SMT (Z3) verdicts"),"level":c.get("level","model_checking"),"level_note":"Bounded: "+c["bounds"]} for i,c in sorted(checks.CHECKS.items())],"not_applicable":checks.NA,
"notes":"One engine (engine/), one runtime of library models (rt/), one harness file per family (harness/), one property per props/<id>.py. See DESIGN.md."}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
import jsonschema
S="/root/.vp/"
if os.path.exists(S):
    jsonschema.validate(m,json.load(open(S+"MANIFEST.schema.json")))
    for l in open(V+"/properties.jsonl"): jsonschema.validate(json.loads(l),json.load(open(S+"PROPERTIES.schema.json")))
    for i in checks.CHECKS:
        e=V+f"/evidence/{i}.json"
        if os.path.exists(e): jsonschema.validate(json.load(open(e)),json.load(open(S+"EVIDENCE.schema.json")))
# generated parts of DESIGN.md
import re
d=open(V+"/DESIGN.md").read()
def put(n,t):
    global d; d=re.sub(rf"<!-- {n} -->.*?<!-- /{n} -->",lambda m:f"<!-- {n} -->\n{t}\n<!-- /{n} -->",d,flags=re.S)
t=""
for i,p in sorted(checks.PROPS.items()):
    c=checks.CHECKS.get(i); t+=f"### {i}: {p['title']}\n\n{p['statement']}\n\n"
    if not c: t+="Not applicable: "+next(n["reason"] for n in checks.NA if n["property"]==i)+"\n\n"; continue
    q=[j for j in c["jobs"] if j["tier"]=="quick"]; hs=sorted({j["harness"] for j in c["jobs"]})
    t+=f"* code: {', '.join(p['anchors']['files'])}; harness: {', '.join('harness/'+h+'.cc' for h in hs)}; {len(q)} quick jobs, {len(c['jobs'])-len(q)} more in thorough\n* decided by: {c.get('technique','symbolic execution of the real LLVM bitcode with SMT (Z3) verdicts')}\n* bounds: {c['bounds']}\n* beyond the tests: {p['why_tests_cant']}\n\n"
put("table",t.rstrip())
put("fixes","\n".join(f"* {k['property']} `{k['commit']}` {k['what'].split(k['commit'])[-1].strip()}" for k in json.load(open(V+"/known_findings.json")) if k["status"]=="fixed"))
res={}
if os.path.exists(V+"/seeded.json"): res=json.load(open(V+"/seeded.json"))
rows=["| id | property | needs | caught by its check |","|---|---|---|---|"]
D={s:d for d in ("seeded-more","seeded") if os.path.isdir(f"{V}/{d}") for s in os.listdir(f"{V}/{d}")}
for s in sorted(D):
    m=json.load(open(f"{V}/{D[s]}/{s}/meta.json")); rows.append(f"| {s} | {m['property']} | {m['needs']} | {res.get(s,'')} |")
put("seeded","\n".join(rows)); open(V+"/DESIGN.md","w").write(d)
