#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of checks implemented in mc/.
import json,re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
impl=set()
for f in glob.glob("mc/*.go"):
    impl|=set(re.findall(r'register\(&Check\{ID: "(C\d\d)"',open(f).read()))
inp="exhaustive bounded enumeration of inputs, run on the real code and compared with a reference model (explicit-state exploration)"
his="exhaustive bounded enumeration of operation histories, replayed on the real code against a reference model (explicit-state exploration)"
sch="stateless model checking: all interleavings of the real code up to a preemption bound under a controlled scheduler (CHESS style), plus the race detector on the same programs"
tech={k:inp for k in ids}
for k in("C07","C08","C09","C10","C23","C24","C26"): tech[k]=his
tech["C21"]=sch
note="Every case inside the bounds written in the evidence file is executed on /repo's current code through its public interface; nothing is sampled. Trusted: the Go toolchain, encoding/json and the small reference model in mc/model.go. Nothing is claimed outside the bounds."
notes={"C21":"Every schedule with at most the stated number of preemptions at statement granularity is executed on an instrumented build of /repo's current code (sequentially consistent); weak memory effects are covered only as far as the race detector sees the same programs run freely."}
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
"notes":"VERIF_TIER selects quick or thorough; VERIF_VERBOSE=1 prints bounds and failures. No hooks in /repo: the checks use its public interface, and C21 instruments a scratch copy through go build -overlay."}
for k in ids:
    if k in impl:
        m["checks"].append({"property":k,"quick_cmd":"bash check.sh "+k,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+k,"technique":tech[k],"level":"model_checking","level_note":notes.get(k,note)})
    else:
        m["not_applicable"].append({"property":k,"reason":"No check built yet."})
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
print(len(m["checks"]),"checks;",[x["property"] for x in m["not_applicable"]])
