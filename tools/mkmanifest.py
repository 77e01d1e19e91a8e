import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
cfg=json.load(open('/verif/tools/config.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in cfg:
        m=[x['module'] for x in cfg[i].get('models',[])]
        checks.append({"property":i,"quick_cmd":"python3 tools/check.py %s quick"%i,"thorough_cmd":"python3 tools/check.py %s thorough"%i,
         "technique":"TLA+ specification (exact rational arithmetic) model-checked with TLC"+(": design model%s %s exhaustively"%("s" if len(m)>1 else "",", ".join(m)) if m else "")+"; trace validation of recorded calls of the real code"+(" incl. replayed spec behaviours" if any(x.get('emit') for x in cfg[i].get('models',[])) else ""),
         "level":"model_checking",
         "level_note":cfg[i].get("note","Every recorded call of the compiled library (exhaustive small lattices, boundary cases and seeded random inputs, float/double/int) is checked by TLC against the property's TLA+ relation in exact rational arithmetic; inputs outside of the recorded ones are not covered. Trusts TLC, java/Rat.java (self-tested against its axioms), the driver's recording, and the rounding tolerances stated in the module.")})
    else: na.append({"property":i,"reason":"check not built yet"})
json.dump({"version":1,"setup_cmd":"python3 tools/check.py setup","checks":checks,"not_applicable":na,"notes":"No hooks are needed: the library is header-only and its API exposes the abstract state; drivers are compiled against /repo/include on every run."},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),[x['property'] for x in na])
