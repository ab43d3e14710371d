"""C17: what runs do to existing results (spec/Files*)."""
import hashlib
import os
import random
import shutil
import warnings

import numpy as np

import jobs
import models
import vlib
from models import FastModel

DT = 750.0


def sha(p):
    if not os.path.isfile(p):
        return ""
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def tree(root):
    if os.path.isfile(root):
        return {"": sha(root)}
    o = {}
    for d, _, fs in os.walk(root):
        o[os.path.relpath(d, root) + "/"] = ""
        for f in fs:
            o[os.path.relpath(os.path.join(d, f), root)] = sha(os.path.join(d, f))
    return o


# something else under the name of the output file
OTHER = [b"", b"field notes", b"CDF" + bytes(300), b"\x89HDF" + bytes(50000)]
FOREIGN = [hashlib.sha1(x).hexdigest() for x in OTHER]


def folder(d, tmp):
    """Output and checkpoint in a folder, as found on disk."""
    o = dict(nc=False, recs=[], ck=False, it=0)
    x = dict(times=[], ok=True, nc=sha(os.path.join(d, models.NC)), ck=sha(os.path.join(d, "checkpoint.npz")), last=None)
    if x["nc"]:
        o["nc"] = True
        try:
            if x["nc"] in FOREIGN:
                raise EOFError
            shutil.copyfile(os.path.join(d, models.NC), tmp)
            r = models.read_nc(tmp)
            o["recs"], x["times"] = r["recs"], r["times"]
            ds = models.netCDF4.Dataset(tmp)
            if "eta" in ds.variables and len(r["times"]):
                x["last"] = np.array(ds.variables["eta"][-1])
            ds.close()
            os.remove(tmp)
        except Exception:
            x["ok"] = x["nc"] in FOREIGN
    if x["ck"]:
        o["ck"] = True
        try:
            with np.load(os.path.join(d, "checkpoint.npz"), allow_pickle=True) as z:
                o["it"] = int(z["time_iter"])
        except Exception:
            o["it"] = -1
    return o, x


def rest(d):
    """Everything else in a folder; logs by content, since they may grow."""
    o = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f in (models.NC, "checkpoint.npz"):
            continue
        with open(os.path.join(d, f), "rb") as h:
            o[f] = h.read()
    return o


def kept(a, b):
    return all(f in b and (b[f] == x or (f.endswith(".log") and b[f].startswith(x)) or f.endswith(".png")) for f, x in a.items())


def one(a, o, i, base):
    """One run into the folder A."""
    d = os.path.join(base, "A")
    tmp = os.path.join(base, "tmp.nc")
    cfg = models.base_cfg(d, DT, save_checkpoint=o["ckpt"], checkpoint_dt=int(DT), save_dt=int(DT), clobber_netcdf=o["clobber"],
                          resume_checkpoint=o["resume"], seed=a["seed"] + i)
    cfg.update(a["on"] if o["saves"] else a["off"])
    b, bx = folder(d, tmp)
    r0 = rest(d)
    out, mid, m = "ok", True, None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        y = models.write_yaml(os.path.join(base, "c%d.yml" % i), cfg)
        if a["via"][i] == "pp" and o["defer"] == "no" and o["steps"] > 0:
            keep = []

            class Keep(FastModel):
                def hook_after_create_domain(self):
                    keep.append(self)

            try:
                jobs.run_pp(y, {"timesteps": o["steps"]}, cls=Keep)
                m = keep[-1]
            except Exception:
                out = "refused" if not o["resume"] else "nockpt"
        else:
            src = dict(input_file=y) if a["via"][i] == "file" else cfg
            try:
                if o["defer"] == "no":
                    m = FastModel(**src)
                else:
                    m = FastModel(defer_output=True, **src)
                    _, mx = folder(d, tmp)
                    mid = mx["nc"] == bx["nc"] and mx["ck"] == bx["ck"]
                    if o["defer"] == "then" and o["resume"]:
                        m.load_checkpoint(defer_output=False)
                    elif o["defer"] == "then":
                        m.hook_init_output_file()
                        m.init_output_file()
                        m.hook_output_data()
                        m.output_data()
                        m.hook_output_checkpoint()
                        m.output_checkpoint()
            except Exception:
                out = "refused" if not o["resume"] else "nockpt"
            if out == "ok" and o["defer"] != "never":
                for _ in range(o["steps"]):
                    m.update()
                m.finalize()
    msg = [str(x.message) for x in w]
    e, ex = folder(d, tmp)
    own = True
    if ex["last"] is not None and m is not None and out == "ok" and o["defer"] != "never":
        own = bool(np.array_equal(ex["last"], np.asarray(m.eta, dtype=np.float32)))
    return dict(ev="run", o=o, out=out, mid=bool(mid), ncSame=ex["nc"] == bx["nc"], ckSame=ex["ck"] == bx["ck"], after=e,
                readable=ex["ok"], own=own, fresh=ex["times"] == [DT * k for k in range(len(ex["times"]))],
                warnReplace=any("eplac" in x for x in msg), warnMissing=any("not found" in x for x in msg),
                others=kept(r0, rest(d)))


def many(a, o, i, base):
    R, tmp = os.path.join(base, "R"), os.path.join(base, "tmp.nc")
    cfg = models.base_cfg(R, DT, save_checkpoint=True, checkpoint_dt=int(DT), save_dt=int(DT), timesteps=o["steps"],
                          resume_checkpoint=o["resume"], clobber_netcdf=bool(a["jobclobber"]))
    cfg.update(a["on"])
    cfg.pop("seed")
    cfg.update(a["expand"])
    note = os.path.join(R, "notes.txt")
    t0, n0 = tree(R), sha(note)
    out = "ok"
    y = models.write_yaml(os.path.join(base, "j%d.yml" % i), cfg)
    try:
        jobs.run_pp(y, {}, parallel=True if o["parallel"] else None, cls=FastModel, via="py")
    except FileExistsError:
        out = "refused"
    t1 = tree(R)
    js = []
    if os.path.isdir(R):
        for j in sorted(os.listdir(R)):
            if os.path.isdir(os.path.join(R, j)):
                js.append(folder(os.path.join(R, j), tmp)[0])
    return dict(ev="jobs", o=o, out=out, n=2, treeSame=t0 == t1, jobs=js, others=sha(note) == n0)


def play(a):
    warnings.simplefilter("ignore")
    base = a["out"]
    os.makedirs(os.path.join(base, "A"))
    with open(os.path.join(base, "A", "notes.txt"), "w") as f:
        f.write("field notes")
    evs = []
    for i, h in enumerate(a["h"]):
        o = h["o"]
        if h["op"] == "run":
            evs.append(one(a, o, i, base))
        elif h["op"] == "jobs":
            evs.append(many(a, o, i, base))
        elif h["op"] == "drop":
            os.remove(os.path.join(base, "A", models.NC))
            evs.append(dict(ev="drop"))
        elif h["op"] == "foreign":
            with open(os.path.join(base, "A", models.NC), "wb") as f:
                f.write(OTHER[a["seed"] % 4])
            evs.append(dict(ev="foreign"))
        else:
            R = os.path.join(base, "R")
            if h["op"] == "mkdir":
                os.mkdir(R)
            with open(os.path.join(R, "notes.txt") if h["op"] == "mkdir" else R, "w") as f:
                f.write("field notes")
            evs.append(dict(ev=h["op"]))
    shutil.rmtree(base, ignore_errors=True)
    return evs


def run(chk):
    chk.design("Files", "Files.cfg")
    models.warm(chk.scratch, full=False)
    rnd = random.Random(chk.seed)
    hs = chk.simulate("FilesGen", "FilesGen.cfg", 1200 if chk.thorough else 160, 8, chk.seed)
    seen, args = set(), []
    for i, s in enumerate(hs):
        p = repr(s["h"][:-1])
        if p in seen:
            continue
        seen.add(p)
        on = rnd.choice([dict(save_eta_grids=True), dict(save_metadata=True), dict(save_eta_grids=True, save_depth_grids=True, save_metadata=True)])
        off = dict(save_eta_figs=True) if rnd.random() < 0.15 else {}
        args.append(dict(h=s["h"], on=on, off=off, seed=rnd.randrange(10**6), via=[rnd.choice(["kw", "file", "pp"]) for _ in s["h"]],
                         jobclobber=rnd.random() < 0.5, out=os.path.join(chk.scratch, "f%d" % i),
                         expand=rnd.choice([dict(matrix={"seed": [1, 2]}), dict(set=[{"seed": 1}, {"seed": 2}]), dict(ensemble=2)])))
    one_run = dict(saves=True, resume=False, defer="no", ckpt=False)
    for i in range(24 if chk.thorough else 8):
        h = [dict(op="foreign", o={})]
        h += [dict(op="run", o=dict(one_run, clobber=k, steps=1 + i % 2, defer=["no", "then"][i // 2 % 2], saves=s, ckpt=i % 3 == 0))
              for k, s in [(False, True), (False, i % 2 == 0), (True, False), (True, True), (False, True)]]
        args.append(dict(h=h, on=dict(save_eta_grids=True), off={}, seed=i, via=[["kw", "file", "pp"][i % 3]] * 6,
                         jobclobber=False, out=os.path.join(chk.scratch, "g%d" % i), expand={}))
    res = vlib.run_forked(play, args, chk.scratch, timeout=300)
    traces = []
    for a, r in zip(args, res):
        evs = r["val"] if r.get("ok") else [vlib.errev(r)]
        traces.append(({k: a[k] for k in ("h", "on", "off", "seed", "via", "jobclobber", "expand")}, evs))
    n = [e["ev"] for t in traces for e in t[1]]
    chk.extra["runs"], chk.extra["job_sets"] = n.count("run"), n.count("jobs")
    outs = [e["out"] for t in traces for e in t[1] if e["ev"] in ("run", "jobs")]
    chk.extra["outcomes"] = {k: outs.count(k) for k in sorted(set(outs))}
    chk.validate("FilesTrace", traces, parts=4)
