#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks the harness registers (grep) and the notes below."""
import json,os,re,glob
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
have=set()
for f in glob.glob(here+"/harness/*.go"):
    have|=set(re.findall(r'register\(&Check\{\s*ID:\s*"(C\d\d)"',open(f).read()))
MODEL="property-based testing (rapid): generated journals against a reference model"
TECH={
"C07":"property-based testing (rapid): generated amount texts against exact decimal arithmetic",
"C08":"property-based testing (rapid): generated values against a reference printer, and print/read round trip",
"C09":"property-based testing (rapid): export/load round trip of generated journals",
"C10":"property-based testing (rapid): generated price histories against an exact rational oracle",
"C12":"property-based testing (rapid): structural comparison and mutation of clones of generated ledgers",
"C13":"stateful property-based testing (rapid): operation sequences against a model map",
"C16":"fuzzing: structured mutations of generated journals, with a crash, hang and line-accounting oracle",
"C17":"property-based testing (rapid) with injected faults: unreadable, overlong and disordered files",
"C18":"metamorphic property-based testing (rapid): journals split in included files against the whole one",
"C19":"property-based testing (rapid): queries on generated ledgers against a reference model",
"C20":"stateful property-based testing (rapid): scenarios of registrations and calls against stub backends, one process each",
"C21":"metamorphic property-based testing (rapid): recalculated ledgers against freshly loaded ones",
"C22":"stateful property-based testing (rapid): interleaved operations on several ledgers, each compared with itself alone",
"C23":"property-based testing (rapid): generated txtdb directories against a reference model",
"C24":"property-based testing (rapid): command output on generated journals against a reference model",
"C25":"property-based testing (rapid): command output on generated journals against a reference model",
"C26":"metamorphic property-based testing (rapid): chained commands against the same commands alone",
"C27":"property-based testing (rapid): command output on generated journals against an exact rational oracle",
"C28":"property-based testing (rapid): command output on generated journals against a reference model",
"C29":"property-based testing (rapid): repeated runs of generated commands compared byte by byte",
"C30":"property-based testing (rapid): command output on generated price histories against an exact rational oracle",
"C31":"differential property-based testing (rapid): the same generated books through two backends",
"C32":"property-based testing (rapid): generated tables served by a stand-in PostgreSQL server, against a reference model",
"C33":"model-based property-based testing (rapid): messages of generated journals with partial declarations against a reference model",
"C34":"property-based testing (rapid): generated failing invocations and faulty data sources run as programs",
"C35":"property-based testing (rapid): generated sessions in a pseudo-terminal, the screen compared with the loaded ledger",
"C36":"property-based testing (rapid): generated sources with and without faults, invariant over the open files, connections and goroutines",
"C37":"property-based testing (rapid): generated sets of concurrent queries under the Go race detector, answers compared with sequential ones",
}
NOTE="Bounded random search (sizes and case counts in the evidence file), reproducible from VERIF_SEED; it shows violations and never their absence. Trusted: the reference model and generators in /verif/harness, rapid, the Go toolchain."
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
 "notes":"No hooks: only the public API, the files and the commands are used. Repaired defects are listed in known-findings.txt."}
for p in props:
    i=p["id"]
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":f"VERIF_TIER=quick bash run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash run.sh {i}",
          "technique":TECH.get(i,MODEL),"level":"exploration","level_note":NOTE})
    else:
        m["not_applicable"].append({"property":i,"reason":"no check has been built yet"})
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
print(len(m["checks"]),"checks;",[x["property"] for x in m["not_applicable"]])
