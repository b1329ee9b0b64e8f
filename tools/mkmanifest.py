#!/usr/bin/env python3
# Writes MANIFEST.json: one check per property that has at least one harness.
import json,os,re,glob
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
have=set()
for f in glob.glob(V+"/harness/**/*.go",recursive=True):
    for m in re.finditer(r"//verif:harness ([A-Z]\d+)",open(f).read()): have.add(m.group(1))
NA=json.load(open(V+"/tools/not_applicable.json"))
NOTES=json.load(open(V+"/tools/level_notes.json"))
m=dict(version=1,setup_cmd="./setup.sh",
 checks=[],not_applicable=[],
 notes="One engine (engine/, Go SSA -> SMT symbolic executor) decides every property; harness/ holds the assertions. Every violation is replayed natively against the real code before it is reported.")
base="Holds for all values of the symbolic inputs within the bounds listed in the evidence file (sizes, counts, loop and schedule bounds are finite and stated there); trusts the engine's Go SSA semantics (cross-checked natively on sampled models of completed paths), the SMT solver and the stdlib models listed in DESIGN.md."
for q in props:
    i=q["id"]
    if i in have:
        m["checks"].append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",
          technique="symbolic execution of the real Go code (go/ssa to SMT, z3) with native replay of counterexamples",
          level="model_checking",level_note=(NOTES.get(i,"")+" "+base).strip()))
    else:
        m["not_applicable"].append(dict(property=i,reason=NA.get(i,"No harness built yet; not claimed.")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"claimed;",[x["property"] for x in m["not_applicable"]])
