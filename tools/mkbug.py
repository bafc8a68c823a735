#!/usr/bin/env python3
"""mkbug.py SPEC: makes /verif/seeded/<id>/ from a python file defining
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, optional FLAGS."""
import difflib, json, os, runpy, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    m = runpy.run_path(spec)
    d = "%s/seeded/%s" % (HERE, m["ID"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for f in ("demo.sh", "kit.h"):
        shutil.copy("%s/tools/seedkit/%s" % (HERE, f), d)
    shutil.copytree(HERE + "/standin", d + "/standin")
    for fl in m.get("FLAGS", []):
        open("%s/%s" % (d, fl), "w").close()
    files = {}
    for f, old, new in m["EDITS"]:
        if f not in files:
            t = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], check=True,
                               stdout=subprocess.PIPE).stdout.decode()
            files[f] = [t, t]
        assert files[f][1].count(old) == 1, (spec, f, files[f][1].count(old), old)
        files[f][1] = files[f][1].replace(old, new)
    with open(d + "/patch.diff", "w") as o:
        for f, (a, b) in files.items():
            o.writelines(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/demo.cpp", "w").write('#include "kit.h"\n' + m["DEMO"])
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], check=True)
