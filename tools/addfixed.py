#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json."""
import json,os,sys
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
f="known_findings.json"
d=json.load(open(f)) if os.path.exists(f) else {"findings":[],"fixed":[]}
e=f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"
if e not in d["fixed"]: d["fixed"].append(e)
json.dump(d,open(f,"w"),indent=1,ensure_ascii=False); open(f,"a").write("\n")
