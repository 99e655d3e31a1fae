#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claimed checks are those with a binary in mc/src/bin."""
import json, os, subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
exec(open(root+"/tools/levels.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"{root}/mc/src/bin/{i.lower()}.rs"):
        t,l,n=LEVELS[i]
        checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":t,"level":l,"level_note":n})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
commits=subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines()
m={"version":1,"setup_cmd":"./setup","hooks":{"guard":"cfg(iris_mc)","enable":"mc/.cargo/config.toml passes --cfg iris_mc to every crate the checks build","source_commits":[c.split()[0] for c in commits if c.split(" ",1)[1].startswith("hook:")]},"checks":checks,"not_applicable":na}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
