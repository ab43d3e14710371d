#!/usr/bin/env python3
"""Apply mutations to /repo one at a time, run the check, undo. Each line of
the list file: JSON [property, file, old, new(, occurrence)]. Prints what was
and what was not caught. Only for developing the checks; needs a clean /repo."""
import json
import re
import subprocess
import sys
import time

for line in open(sys.argv[1]):
    if not line.strip():
        continue
    prop, fn, old, new, *nth = json.loads(line)
    p = "/repo/pyDeltaRCM/" + fn
    src = open(p).read()
    at = [m.start() for m in re.finditer(re.escape(old), src)]
    k = nth[0] if nth else 0
    if len(at) <= k:
        print("NOT FOUND", prop, old)
        continue
    open(p, "w").write(src[: at[k]] + new + src[at[k] + len(old):])
    t = time.time()
    try:
        r = subprocess.run(["./check", prop], cwd="/verif", capture_output=True, text=True, timeout=900)
        cl = re.findall(r"violated clause: (\S+)", r.stdout)
        print("%-7s rc=%d %3.0fs %s: %s -> %s   %s" % ("caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", r.returncode, time.time() - t, prop, old.strip()[:60], new.strip()[:60], cl[:4]), flush=True)
        if r.returncode > 1:
            print(r.stdout[-600:], r.stderr[-600:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
