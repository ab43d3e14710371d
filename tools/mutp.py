#!/usr/bin/env python3
"""mutp.py LIST.jsonl [WORKERS]: like mutate.py, but on copies of /repo and /verif that are mounted
over the real ones in a mount namespace of their own, so that nothing here changes and several run
at a time. Lines: [property, file, old, new(, occurrence)] or {"prop":..., "patch": path}.
Only for developing the checks."""
import json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time

jobs = queue.Queue()
for line in open(sys.argv[1]):
    if line.strip():
        jobs.put(json.loads(line))
root = tempfile.mkdtemp(prefix="mutp")
lock = threading.Lock()


def say(*a):
    with lock:
        print(*a, flush=True)


def work(w):
    repo, verif = root + "/repo%d" % w, root + "/verif%d" % w
    subprocess.check_call("mkdir -p %s %s; git -C /repo archive HEAD | tar x -C %s; cp -a /verif/. %s/; rm -rf %s/seeded" % (repo, verif, repo, verif, verif), shell=True)
    subprocess.check_call("git init -q .; git add -A; git -c user.name=x -c user.email=x commit -qm x; cp -a /repo/pyDeltaRCM.egg-info . 2>/dev/null || true", shell=True, cwd=repo)
    while True:
        try:
            j = jobs.get_nowait()
        except queue.Empty:
            return
        try:
            if isinstance(j, dict):
                subprocess.check_call(["git", "apply", j["patch"]], cwd=repo)
                prop, label = j["prop"], j["patch"]
            else:
                prop, fn, old, new, *nth = j
                p = repo + "/pyDeltaRCM/" + fn
                src = open(p).read()
                at = [m.start() for m in re.finditer(re.escape(old), src)]
                k = nth[0] if nth else 0
                if len(at) <= k:
                    say("NOT FOUND", prop, old)
                    continue
                open(p, "w").write(src[: at[k]] + new + src[at[k] + len(old):])
                label = "%s -> %s" % (old.strip()[:70], new.strip()[:90])
            t = time.time()
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && mount --bind %s /verif && cd /verif && timeout 900 ./check %s" % (repo, verif, prop)], capture_output=True, text=True)
            cl = re.findall(r"violated clause: (\S+)", r.stdout)
            say("%-7s rc=%d %3.0fs %s: %s   %s" % ("caught" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR", r.returncode, time.time() - t, prop, label.replace("\n", "\\n"), cl[:3]))
            if r.returncode > 1:
                say(r.stdout[-600:], r.stderr[-600:])
        finally:
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo)


ts = [threading.Thread(target=work, args=(w,)) for w in range(int(sys.argv[2]) if len(sys.argv) > 2 else 3)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(root)
