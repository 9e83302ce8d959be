import json,sys
sys.path.insert(0,'/verif/qstat')
sys.path.insert(0,'/verif')
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import re
src=open('/verif/qstat/registry.py').read()
have=set(re.findall(r'"(C\d\d)":',src))
TECH=json.load(open('/tmp/gen/tech.json')) if __import__('os').path.exists('/tmp/gen/tech.json') else {}
NA={
"C28":"The property is arithmetic over loops whose trip count is the number of registers and whose values are products of dimensions; deciding it needs an inductive argument about mixed-radix arithmetic (a prover or solver), not a dataflow fact. The structural part (digit order, padding, which base list is used) is decided by C20.",
"C29":"Accumulated rounding error is a quantitative property of run-time floating-point values; no static argument in reach bounds it without over-approximating to uselessness for circuits of unbounded depth.",
}
m={"version":1,"setup_cmd":"python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'","checks":[],"not_applicable":[],
"notes":"All checks read /repo's current source on every run; nothing from /repo is imported or executed. Standard library only."}
for p in props:
    i=p["id"]
    if i in have:
        t=TECH.get(i,{})
        m["checks"].append({"property":i,"quick_cmd":f"python3 /verif/check.py {i} --tier quick","thorough_cmd":f"python3 /verif/check.py {i} --tier thorough",
         "technique":t.get("technique","static analysis: path-partitioned abstract interpretation over value-flow terms (global value numbering) of the current source, compared with a reference written over the public API"),
         "level":"other","level_note":t.get("level_note","Every obligation is PROVED, REFUTED or UNDECIDED for all inputs of the abstract scene; only REFUTED is reported as a violation, the undecided ones are listed in the evidence.")})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"No check in place yet.")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
