#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks compiled into mc ("mc list")."""
import json,os,subprocess,sys
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
mc=sys.argv[1]
levels=dict(l.split() for l in subprocess.check_output([mc,"list"],text=True).splitlines())
props=[json.loads(l) for l in open("properties.jsonl")]
TECH={
 "exploration":"bounded exhaustive enumeration of inputs executed on the real code, against an independent reference",
 "model_checking":"stateless model checking of the real code under a controlled scheduler, clock and network; exhaustive to the deviation bound",
}
NOTE={
 "exploration":"Every input of the stated finite sets is executed on the instrumented real code; nothing is sampled. Inputs outside the sets are not covered. Trusts the reference encoder/decoder in mc/wire and the instrumenter.",
 "model_checking":"Every schedule, timer order and fault of the enumerated scenarios up to the reported deviation bound is executed on the instrumented real code, so there is no separate model to bind; histories are compared with a reference specification. Trusts the instrumenter, the virtual runtime (mc/vrt, vsync, vtime, vnet) and sequentially consistent memory.",
}
reasons=json.load(open("tools/not_applicable.json")) if os.path.exists("tools/not_applicable.json") else {}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in levels:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":TECH[levels[i]],"level":levels[i],"level_note":NOTE[levels[i]]})
    else:
        na.append({"property":i,"reason":reasons.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "hooks":{"guard":"none: the checks instrument a scratch copy of /repo's working tree (instr/), /repo carries no hooks","enable":"./build.sh OUTDIR","source_commits":[]},
 "notes":"See DESIGN.md. ./check.sh replay replays/FILE re-executes a recorded violation."}
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"not applicable")
