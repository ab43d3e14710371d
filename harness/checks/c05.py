"""C05: expansion of matrix, set and ensemble inputs (spec/Expand*)."""
import os
import random
import shutil

import numpy as np
import yaml

import jobs
import models
import vlib

POOL = {
    "u0": [1.0, 1.5, 2], "h0": [2.5, 3, 4.0], "f_bedload": [0.25, 0.5, 1],
    "SLR": [0.0, 2e-09, 1.5e-7], "N0_meters": [150.0, 200, 250.0], "seed": [0, 1, 4294967294],
    "save_eta_grids": [True, False, True], "subsidence_rate": [2e-9, 3.5e-10, 0],
    "Np_water": [10, 20, 30], "hb": [None, 3.0, 4], "stepmax": [None, 50, 60],
    "alpha": [0.1, 0.05, 0.2], "timesteps": [1, 2, 3], "save_dt": [750, 1500, 86400],
    "sand_frac_bc": [0.5, 0.0, 1], "checkpoint_dt": [None, 750, 800],
    "start_subsidence": [0, float("inf"), 1000.0],
    # parameters of a subclass, in words that could be taken for something else
    "label": ["yes", "x #2", "plain text"], "note": ["a: b", "10", "3.5"], "remark": ["", "null", "'q' [1]"],
}
NOT_EXPOSED = {"timesteps", "time", "time_years", "out_dir", "If", "stepmax"}


def tok(v):
    if isinstance(v, (list, tuple)):
        return "list"
    if isinstance(v, (np.integer,)):
        v = int(v)
    if isinstance(v, (np.floating,)):
        v = float(v)
    return "%s:%r" % (type(v).__name__, v)


def build(shape, rnd):
    """A concrete input of this shape, and its description for the spec."""
    kind, lens, ens, defect = shape["kind"], shape["lens"], shape["ens"], shape["defect"]
    names = [k for k in POOL if not (k == "seed" and ens > 1)]
    rnd.shuffle(names)
    y = {}
    nk = len(lens) if kind == "matrix" else (lens[1] if kind == "set" else 0)
    varied, rest = names[:nk], names[nk:]
    if defect == "seed-in-matrix":
        varied[-1] = "seed"
        rest = [k for k in names if k not in varied]
    if kind == "matrix":
        mat = {}
        for k, n in zip(varied, lens):
            v = list(POOL[k])
            rnd.shuffle(v)
            mat[k] = v[:n]
        y["matrix"] = mat
    if kind == "set":
        sets = []
        for i in range(lens[0]):
            sets.append({k: POOL[k][(i + len(k)) % 3] for k in varied})
        if len(sets) > 1 and rnd.random() < 0.5:  # order of keys does not matter
            sets[-1] = dict(reversed(list(sets[-1].items())))
        y["set"] = sets
    fixed = {k: rnd.choice(POOL[k]) for k in rest[: rnd.choice([2, 4, 6])] if k != "seed"}
    for k in ("Length", "Width", "dx", "L0_meters"):
        fixed[k] = models.SMALL[k]
    fixed["C0_percent"] = 1.0
    fixed["S0"] = 0.0003
    if "timesteps" not in varied:
        fixed.setdefault("timesteps", 2)
    ens_int = True
    if ens != -1:
        y["ensemble"] = ens
    if defect == "ens-float":
        y["ensemble"], ens_int = 2.0, False
    if defect == "ens-str":
        y["ensemble"], ens_int = "two", False
    if defect == "key-in-both":
        fixed[varied[-1]] = POOL[varied[-1]][0]
    if defect == "out_dir-varied":
        if kind == "matrix":
            y["matrix"]["out_dir"] = ["a", "b"]
        else:
            for i, s in enumerate(y["set"]):
                s["out_dir"] = "abc"[i]
    if defect == "nested":
        y["matrix"][varied[0]] = y["matrix"][varied[0]] + [[1, 2]]
    if defect == "colon":
        if kind == "matrix":
            y["matrix"]["bad:key"] = [1, 2]
        else:
            for s in y["set"]:
                s["bad:key"] = 1
    if defect == "matrix-and-set":
        y["set"] = [{"beta": 3}, {"beta": 4}]
    if defect == "differing-keys":
        y["set"][-1]["beta"] = 4
    if defect == "missing-key":
        y["set"][-1].pop(varied[-1])
    if defect == "seed-fixed":
        fixed["seed"] = 5
    y.update(fixed)
    d = {
        "hasMat": "matrix" in y, "hasSet": "set" in y,
        "mat": [{"k": k, "vals": [tok(x) for x in v], "colon": ":" in k}
                for k, v in y.get("matrix", {}).items()],
        "sets": [[{"k": k, "v": tok(v), "colon": ":" in k} for k, v in s.items()]
                 for s in y.get("set", [])],
        "ens": ens if ens_int else 2, "ensInt": ens_int,
        "fixed": [{"k": k, "v": tok(v)} for k, v in fixed.items()],
        "out": defect != "no-out_dir",
    }
    return y, d


def load(path):
    from pyDeltaRCM import shared_tools
    with open(path) as f:
        return yaml.load(f, Loader=shared_tools.custom_yaml_loader())


def scenario(a):
    work = a["work"]
    os.makedirs(work)
    os.chdir(work)
    out = os.path.join(work, ["out", "out dir", "out #2", "out", "a: b", "out"][a["name"]])
    y = dict(a["y"])
    if a["d"]["out"]:
        y["out_dir"] = out
    f = models.write_yaml(os.path.join(work, "in.yml"), y)
    from pyDeltaRCM import preprocessor
    evs = []
    np.random.seed(a["seed"])

    def make():
        if a["via"] == "cli":
            with jobs.argv("--config", f):
                return preprocessor.PreprocessorCLI()
        if a["via"] == "dict":
            import copy
            return preprocessor.Preprocessor(input_file=copy.deepcopy(y))
        return preprocessor.Preprocessor(input_file=f)

    try:
        pp = make()
        evs.append({"ev": "expand", "outcome": "accepted", "ran": 0})
    except (ValueError, TypeError) as x:
        evs.append({"ev": "expand", "outcome": "rejected", "ran": 0, "msg": str(x)[:80]})
        return evs
    if a["again"]:
        # resumed with another duration: the job files must say so
        y["timesteps"] = 7
        y["resume_checkpoint"] = True
        models.write_yaml(f, y)
        pp = make()
    table = os.path.join(out, "jobs_parameters.txt")
    header, rows = [], []
    if os.path.exists(table):
        with open(table) as fh:
            lines = fh.read().splitlines()
        header = [x.strip() for x in lines[0].split(",")]
        rows = [x.split(",") for x in lines[1:]]
    expanded = a["d"]["hasMat"] or a["d"]["hasSet"] or a["d"]["ens"] > 1
    n = len(pp.config_list)
    probe = set([0, n - 1] + random.Random(a["seed"]).sample(range(n), min(n, 2)))
    for i, (c, p) in enumerate(zip(pp.config_list, pp.file_list)):
        c = {k: v for k, v in c.items() if k not in ("config", "dryrun", "parallel")}
        e = {"ev": "job", "cfg": {k: tok(v) for k, v in c.items()},
             "str": {k: str(v) for k, v in c.items()}, "model": {}, "ran": True}
        if p is None or isinstance(p, dict) or not expanded:
            e["yml"] = e["cfg"]
        else:
            try:
                e["yml"] = {k: tok(v) for k, v in load(p).items()
                            if k not in ("config", "dryrun", "parallel")}
            except Exception:
                e["yml"] = {}
        d = str(c.get("out_dir", ""))
        e["id"] = os.path.basename(d)
        e["dir"] = d
        e["dirExists"] = os.path.isdir(d)
        e["parent"] = os.path.dirname(os.path.abspath(d)) == os.path.abspath(out)
        e["inFolder"] = p is not None and os.path.dirname(os.path.abspath(str(p))) == os.path.abspath(d)
        e["header"] = header
        e["row"] = next((r for r in rows if r and r[0] == e["id"]), [])
        if i in probe and expanded and not a["again"]:
            try:
                m = models.DeltaModel(input_file=str(p), defer_output=True)
                # (null stands for a default that depends on other parameters)
                e["model"] = {k: tok(getattr(m, k)) for k in c
                              if k not in NOT_EXPOSED and hasattr(m, k) and c[k] is not None}
            except Exception as x:
                e["ran"] = False
                e["msg"] = "%s %s" % (type(x).__name__, x)
        evs.append(e)
    ids = [e["id"] for e in evs if e["ev"] == "job"]
    evs.append({"ev": "done", "nfiles": len(pp.file_list),
                "rows": len([r for r in rows if r[0] in ids]) if len(rows) == len(ids) else len(rows)})
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)
    return evs


def run(chk):
    chk.design("Expand", "Expand.cfg")
    shapes = chk.generate("ExpandGen", "ExpandGen.cfg")
    shapes.sort(key=repr)
    rnd = random.Random(chk.seed)
    models.warm(chk.scratch, full=False)
    args = []
    # many replicas: seeds must still differ
    shapes += [{"kind": "set", "lens": [2, 1], "ens": 45, "defect": "none"},
               {"kind": "matrix", "lens": [2], "ens": 45, "defect": "none"},
               {"kind": "plain", "lens": [], "ens": 60, "defect": "none"}]
    for rep in range(4 if chk.thorough else 1):
        for i, sh in enumerate(shapes):
            y, d = build(sh, rnd)
            again = sh["defect"] == "none" and sh["kind"] != "plain" and i % 6 == 0 \
                and "timesteps" in [x["k"] for x in d["fixed"]] and sh["ens"] in (-1,)
            if again:
                d = dict(d, fixed=[x if x["k"] != "timesteps" else {"k": "timesteps", "v": "int:7"}
                                   for x in d["fixed"]] + [{"k": "resume_checkpoint", "v": "bool:True"}])
            args.append(dict(work=os.path.join(chk.scratch, "x%d_%d" % (rep, i)), y=y, d=d, shape=sh,
                             via=["py", "cli", "py", "dict"][i % 4] if sh["kind"] != "plain" else "py",
                             seed=rnd.randrange(10**6), again=again, name=i % 6))
    res = vlib.run_forked(scenario, args, chk.scratch, timeout=120)
    traces = []
    for a, r in zip(args, res):
        traces.append(({"cfg": a["d"], "shape": a["shape"], "yaml": a["y"], "via": a["via"]},
                       r["val"] if r.get("ok") else [vlib.errev(r)]))
    chk.validate("ExpandTrace", traces)
