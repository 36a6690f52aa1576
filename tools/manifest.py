#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties (development tool)."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
root=os.path.dirname(here)
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
META=json.load(open(here+'/meta.json'))
import glob,re
built=set(re.findall(r'register\(&Prop\{\s*ID:\s*"(C\d+)"',''.join(open(f).read() for f in glob.glob(root+'/harness/mon/*.go'))))
checks=[];na=[]
for p in props:
    i=p['id']
    if i not in built:
        na.append({"property":i,"reason":"The monitor of this property is not built yet."}); continue
    m=META[i]
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "evidence_file":f"evidence/{i}.json","technique":m["technique"],"level":"exploration","level_note":m["note"]})
man={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"verif","enable":"no hook was needed: every monitor observes the public API, so /repo has no guarded code","source_commits":[]},
 "checks":checks,"not_applicable":na,
 "notes":"Each check builds /verif/harness with the code of /repo's working tree (a Go module replace) and runs the workload of one property under its monitor; see DESIGN.md."}
json.dump(man,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
