#!/usr/bin/env python3
"""mkseed.py <id>...: makes /verif/seeded/<id> from tools/seeds/<id>.py (edits against /repo's HEAD) and the demo files."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
for i in sys.argv[1:]:
    ns = {}
    exec(open(f"{here}/seeds/{i}.py").read(), ns)
    out = f"{os.path.dirname(here)}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {w} && git -C {w} init -q && git -C {w} add -A && git -C {w} -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
        for f, a, b in ns["EDITS"]:
            s = open(f"{w}/{f}").read()
            assert s.count(a) == 1, (i, f, s.count(a), a)
            open(f"{w}/{f}", "w").write(s.replace(a, b))
        d = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
        open(f"{out}/patch.diff", "w").write(d)
    finally:
        shutil.rmtree(w)
    open(f"{out}/demo.rs", "w").write(ns["DEMO"].lstrip())
    shutil.copy(f"{here}/demo/demo.sh", out)
    shutil.copy(f"{here}/demo/fake.rs", out)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
