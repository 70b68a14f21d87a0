#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed."""
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl') if l.strip()]
src=''.join(open(f).read() for f in glob.glob(root+'/harness/h/*.go'))
have=set(re.findall(r'func H_(C\d\d)_',src))
NA={}
try:
    NA=json.load(open(root+'/tools/not_applicable.json'))
except FileNotFoundError: pass
checks=[];na=[]
for p in props:
    i=p['id']
    if i in have and i not in NA:
        checks.append({
            "property":i,
            "quick_cmd":f"bash check.sh {i} quick",
            "thorough_cmd":f"bash check.sh {i} thorough",
            "evidence_file":f"evidence/{i}.json",
            "technique":"symbolic execution of the Go SSA of the real code, deciding with z3 (QF_BV)",
            "level":"model_checking",
            "level_note":"Holds for all values of the symbolic bytes within the shapes and sizes named in DESIGN.md; nothing beyond those bounds. Trusts the SSA builder, the engine's instruction semantics and library models (sampled paths are re-run natively and compared), and z3."})
    else:
        na.append({"property":i,"reason":NA.get(i,"no harness yet")})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
   "notes":"Engine in engine/, harnesses in harness/h. No hooks in /repo. bash check.sh --replay FILE re-runs a violation on the real code."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
