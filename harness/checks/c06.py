"""C06: running jobs (spec/Jobs*)."""
import glob
import json
import multiprocessing
import os
import random
import re
import shutil
import time

import jobs
import models
import vlib

ERR = [RuntimeError, ValueError, NotImplementedError, UnicodeDecodeError]


def boom(kind, job, big):
    m = "PLANNED-%d-" % job + ("x" * 200000 if big else "fault")
    if kind == 3:
        raise UnicodeError(m)
    raise ERR[kind](m)


def make_class(a, log):
    faults = a["f"]

    def put(**e):
        fd = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (json.dumps(e) + "\n").encode())
        os.close(fd)

    class M(models.FastModel):
        _began = False

        def _job(self):
            s = os.path.basename(self.out_dir)
            return int(s.split("_")[-1]) + 1 if s.startswith("job_") else 1

        def hook_init_output_file(self):
            if faults[self._job() - 1] == "init" and a["cap"]:
                put(ev="start", job=self._job())
                self._began = True
                boom(a["kind"], self._job(), a["big"])

        def update(self):
            j = self._job()
            f = faults[j - 1]
            if not self._began:
                put(ev="start", job=j)
                self._began = True
                self._n0 = self.time_iter
            if f in ("run", "both", "other") and self.time_iter - self._n0 == a["at"]:
                if f == "other":
                    put(ev="dies", job=j)
                    raise KeyError("PLANNED-%d-" % j)
                boom((a["kind"] + j) % 4, j, a["big"])
            if a["cap"]:
                time.sleep(a["sleep"][j - 1])
            super().update()
            put(ev="step", job=j, it=self.time_iter - self._n0)

        def finalize(self):
            j = self._job()
            put(ev="final", job=j)
            super().finalize()
            if faults[j - 1] in ("final", "both"):
                boom((a["kind"] + j + 1) % 4, j, a["big"])

    return M


def scenario(a):
    work = a["work"]
    os.makedirs(work)
    os.chdir(work)
    out = os.path.join(work, "out")
    log = os.path.join(work, "sched")
    n = len(a["f"])
    y = models.base_cfg(out, dt=750.0, save_eta_grids=True, save_dt=750, timesteps=a["want"])
    if n > 1 or a["matrix"]:
        if a["kindof"] == "set":
            y["set"] = [{"Np_water": 10 + i} for i in range(n)]
            del y["Np_water"]
        elif a["kindof"] == "ens" and n > 1:
            y["ensemble"] = n
            del y["seed"]
        else:
            y["matrix"] = {"Np_water": [10 + i for i in range(n)]}
            del y["Np_water"]
    if a["resume"]:
        # stopped after one timestep, then resumed as jobs
        y["save_checkpoint"] = True
        y["timesteps"] = 1
        f = models.write_yaml(os.path.join(work, "in0.yml"), y)
        jobs.run_pp(f, {}, "py", None, models.FastModel)
        for p in glob.glob(os.path.join(out, "*.log")) + glob.glob(os.path.join(out, "*", "*.log")):
            os.remove(p)
        y["timesteps"] = a["want"]
        y["resume_checkpoint"] = True
    f = models.write_yaml(os.path.join(work, "in.yml"), y)
    par = None if a["cap"] == 0 else (True if a["capTrue"] else a["cap"])
    ok, msg, txt = True, "", ""
    import contextlib
    import io
    from pyDeltaRCM import preprocessor
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            if a["via"] == "py":
                pp = preprocessor.Preprocessor(input_file=f, **({} if par is None else {"parallel": par}))
            else:
                with jobs.argv("--config", f, *([] if par is None else
                                                ["--parallel"] + ([] if par is True else [par]))):
                    pp = preprocessor.PreprocessorCLI()
            pp.run_jobs(DeltaModel=make_class(a, log))
    except Exception as x:
        ok, msg = False, "%s %s" % (type(x).__name__, str(x)[:100])
    txt = buf.getvalue()
    evs = []
    if os.path.exists(log):
        evs = [json.loads(x) for x in open(log)]
    left = len(multiprocessing.active_children())
    single = not (n > 1 or a["matrix"])
    for j in range(1, n + 1):
        d = out if single else os.path.join(out, "job_%03d" % (j - 1))
        lg = ""
        for p in glob.glob(os.path.join(d, "*.log")):
            lg += open(p, errors="replace").read()
        says = txt if a["cap"] else lg
        lines = [x[:300] for x in says.splitlines()
                 if re.search(r"\bjob\W{1,3}%d\b" % (j - 1), x, re.I)]

        def said(stage, failed):
            for x in lines:
                err = re.search(r"error|fail|code\W{1,3}1\b", x, re.I)
                st = re.search(r"stage\W{1,3}(\d)", x)
                if bool(err) == failed and (st is None and failed or st and int(st.group(1)) == stage):
                    return True
            return False

        rec = -1
        try:
            ds = models.netCDF4.Dataset(os.path.join(d, models.NC))
            rec = len(ds.variables["time"][:])
            ds.close()
        except Exception:
            pass
        if a["resume"] and rec > 0:
            rec -= 1  # those of the first part
        evs.append({"ev": "job", "job": j, "failAt": min(a["at"], a["want"]), "records": rec,
                    "saidDone": said(1, False), "saidFinal": said(2, False),
                    "saidFailed": said(1, True) or said(2, True),
                    "ownError": ("PLANNED-%d-" % j) in lg,
                    "otherError": any("PLANNED-%d-" % k in lg for k in range(1, n + 1) if k != j)})
    evs.append({"ev": "returned", "ok": ok, "left": left, "msg": msg})
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)
    return evs


def dry(a):
    """Jobs that are possibly only to be set up."""
    work = a["work"]
    os.makedirs(work)
    os.chdir(work)
    out = os.path.join(work, "out")
    log = os.path.join(work, "sched")
    y = models.base_cfg(out, dt=750.0, save_eta_grids=True, save_dt=750, timesteps=a["want"], save_checkpoint=True)
    if a["kindof"] == "matrix":
        del y["Np_water"]
        y["matrix"] = {"Np_water": list(range(10, 10 + a["n"]))}
    elif a["kindof"] == "set":
        del y["Np_water"]
        y["set"] = [{"Np_water": 10 + i} for i in range(a["n"])]
    elif a["kindof"] == "ens":
        del y["seed"]
        y["ensemble"] = a["n"]
    if a["file"] != "-":
        y["dryrun"] = a["file"] == "yes"
    over = {} if a["over"] == "-" else {"dryrun": a["over"] == "yes"}

    class M(models.FastModel):
        def __init__(self, *x, **k):
            with open(log, "a") as f:
                f.write("m\n")
            super().__init__(*x, **k)

        def hook_after_finalize_timestep(self):
            with open(log, "a") as f:
                f.write("s\n")

    e = dict(ev="dry", ok=True, file=a["file"], over=a["over"], n=a["n"], want=a["want"], files=0)
    try:
        f = models.write_yaml(os.path.join(work, "in.yml"), y)
        pp, _ = jobs.run_pp(f, over, a["via"], a["par"] or None, M)
        e["files"] = len(pp.file_list)
    except Exception as x:
        e.update(ok=False, msg="%s %s" % (type(x).__name__, str(x)[:100]))
    t = open(log).read() if os.path.exists(log) else ""
    e.update(models=t.count("m"), steps=t.count("s"))
    e["results"] = sum(1 for _, _, fs in os.walk(work) for g in fs if g.endswith((".nc", ".npz", ".log", ".png")))
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)
    return [e]


def run(chk):
    for c in ("Jobs_1_1", "Jobs_2_2", "Jobs_3_1"):
        chk.design("Jobs", c + ".cfg")
    cases = chk.generate("JobsGen", "JobsGen.cfg")
    cases.sort(key=lambda c: (c["cap"], len(c["f"]), c["f"]))
    models.warm(chk.scratch, full=False)
    rnd = random.Random(chk.seed)
    ser = [c for c in cases if c["cap"] == 0]
    par = [c for c in cases if c["cap"] > 0]
    rnd.shuffle(par)
    if not chk.thorough:
        par = par[:100]
    # one over the number of processors but one, for "as many as possible"
    ncpu = multiprocessing.cpu_count()
    par.insert(0, {"cap": max(1, ncpu - 1), "f": ["none"] * (ncpu + 3), "true": True})
    par.insert(0, {"cap": 1, "f": ["other", "none", "none"]})
    par.insert(0, {"cap": 2, "f": ["other", "run", "none", "none", "other"]})
    args = []
    for i, c in enumerate(ser + par):
        n = len(c["f"])
        nof = all(x == "none" for x in c["f"])
        args.append(dict(
            work=os.path.join(chk.scratch, "j%d" % i), f=c["f"], cap=c["cap"], capTrue=c.get("true", False),
            want=2 + i % 2, at=i % 3 if not nof else 0, kind=i % 4, big=i % 3 == 0, matrix=i % 2 == 0,
            kindof=["matrix", "set", "matrix", "ens"][i % 4], via=["py", "cli", "py"][i % 3],
            resume="init" not in c["f"] and i % 6 == 5,
            sleep=[1.2 if c.get("true") else rnd.choice([0.03, 0.06, 0.1]) for _ in range(n)]))
        if args[-1]["at"] >= args[-1]["want"]:
            args[-1]["at"] = args[-1]["want"] - 1
    res = vlib.run_forked(scenario, args, chk.scratch, timeout=90, nproc=16)
    traces = []
    for a, r in zip(args, res):
        cfg = {"n": len(a["f"]), "cap": a["cap"], "want": a["want"], "f": a["f"]}
        info = {k: v for k, v in a.items() if k != "work"}
        traces.append((dict(info, cfg=cfg), r["val"] if r.get("ok") else [vlib.errev(r)]))
    ds = []
    for i, (fl, ov) in enumerate([(f, o) for f in ("-", "yes", "no") for o in ("-", "yes", "no")] * 2):
        via = ["py", "cli"][i % 2 if ov != "no" else 0]  # the command line can only ask for it
        k = rnd.choice(["single", "matrix", "set", "ens"])
        ds.append(dict(work=os.path.join(chk.scratch, "y%d" % i), file=fl, over=ov, via=via, want=2, kindof=k,
                       n=1 if k == "single" else rnd.randint(2, 3), par=rnd.choice([0, 0, 2])))
    for a, r in zip(ds, vlib.run_forked(dry, ds, chk.scratch, timeout=90)):
        traces.append((dict({k: v for k, v in a.items() if k != "work"}, cfg={"n": 0, "cap": 0, "want": 0, "f": []}),
                       r["val"] if r.get("ok") else [vlib.errev(r)]))
    chk.validate("JobsTrace", traces)
