"""mkseed.py FILE: FILE defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)].
Writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}; /repo is not touched."""
import json, os, subprocess, sys, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
PRE = ns.get("PRE", "")
for s in ns["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed_wt"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD pyDeltaRCM | tar x -C " + w, shell=True)
    subprocess.check_call("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=w)
    for f, old, new in s["edits"]:
        p = os.path.join(w, "pyDeltaRCM", f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(PRE + s["demo"])
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves as promised; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH=$PWD PYTHONWARNINGS=ignore NUMBA_OPT=0
exec python -B "$here/demo.py"
''')
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
    print("wrote", d)
