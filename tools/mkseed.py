"""mkseed.py SPEC.py: write /verif/seeded/<id>/ from a spec (dicts with id, property, edits [(file, old, new)], demo,
needs, what); the patch is made by git diff in a scratch copy of /repo."""
import json, os, runpy, shutil, subprocess, sys, tempfile
for sd in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and sd["id"] not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="mkseed", dir="/tmp"); r = d + "/repo"
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    base = subprocess.run(["git", "-C", r, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[-1]
    for f, old, new in sd["edits"]:
        p = f"{r}/{f}"; s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (sd["id"], f, s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, check=True).stdout
    o = f"/verif/seeded/{sd['id']}"; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(diff)
    open(o + "/demo.py", "w").write(sd["demo"].lstrip("\n"))
    open(o + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["what"]}, open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    print("wrote", sd["id"])
