import json, os, sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H); sys.path.insert(0,H+"/dev"); os.chdir(H)
from checks import CHECKS
from props import PROPS
ids=[p["id"] for p in PROPS]
assert len(set(ids))==len(ids)
for p in PROPS: assert len(p["title"])<=80,(p["id"],len(p["title"])); assert p["statement"].count(". ")<=2,p["id"]
with open("properties.jsonl","w") as f:
    for p in sorted(PROPS,key=lambda p:p["id"]): f.write(json.dumps(p,ensure_ascii=False)+"\n")
NA={}
m=dict(version=1,setup_cmd="python3 setup_all.py",
 checks=[dict(property=i,quick_cmd=f"python3 run_check.py {i}",thorough_cmd=f"python3 run_check.py {i} --thorough",evidence_file=f"evidence/{i}.json",
   technique=CHECKS[i]["technique"],level=CHECKS[i]["level"],level_note=CHECKS[i]["level_note"]) for i in sorted(CHECKS) if i in ids],
 not_applicable=[dict(property=i,reason=NA[i]) for i in sorted(ids) if i not in CHECKS],
 notes="All checks are runtime monitors: randomized workloads drive the real library, built from /repo's working tree (plain, ASan+UBSan and TSan builds), while oracles that do not use the library's algorithms judge every observation. Monitor sources: harness/; driver: run_check.py; what each check runs: checks.py.")
json.dump(m,open("MANIFEST.json","w"),indent=1,ensure_ascii=False)
print(len(m["checks"]),"checks;", [i for i in CHECKS if i not in ids])
