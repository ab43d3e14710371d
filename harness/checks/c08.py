"""C08: resolution of the configuration (spec/Config*)."""
import os
import random
import re
import shutil
import warnings

import numpy as np

import models
import vlib

# acceptable values: (integers, floats) for keyword and file
GOOD = {
    "verbose": ([1, 2], None), "seed": ([7, 0], None), "Length": ([600, 500], [550.0, 650.0]),
    "Width": ([1000, 900], [800.0, 1100.0]), "dx": ([50, 40], [25.0, 62.5]),
    "L0_meters": ([100, 150], [60.0, 120.5]), "S0": ([0, 1], [0.0003, 1e-4]), "itermax": ([1, 0], None),
    "Np_water": ([10, 20], None), "u0": ([1, 2], [1.5, 0.75]), "N0_meters": ([150, 200], [150.5, 250.0]),
    "h0": ([3, 4], [2.5, 5.5]), "hb": ([3, 0], [0.0, 4.25]), "H_SL": ([0, 1], [0.25, -1.5]),
    "SLR": ([0, 1], [1e-8, 2.5e-9]), "Np_sed": ([10, 20], None), "f_bedload": ([0, 1], [0.25, 1.0]),
    "active_layer_thickness": ([1, 2], [0.25, 0.0]), "C0_percent": ([1, 2], [0.25, 0.1]),
    "Csmooth": ([1, 0], [0.75, 0.5]), "subsidence_rate": ([0, 1], [1e-9, 2.5e-8]),
    "start_subsidence": ([0, 1000], [25.5, 1e6]), "save_dt": ([750, 1500], None),
    "checkpoint_dt": ([750, 3000], None), "omega_sfc": ([0, 1], [0.25, 0.5]),
    "omega_flow": ([0, 1], [0.25, 0.5]), "Nsmooth": ([1, 0], None), "theta_water": ([1, 2], [0.5, 1.5]),
    "coeff_theta_sand": ([1, 3], [0.5, 1.5]), "coeff_theta_mud": ([2, 3], [0.5, 1.5]),
    "beta": ([2, 4], None), "sed_lag": ([0, 1], [0.5, 0.25]), "coeff_U_dep_mud": ([0, 1], [0.25, 0.5]),
    "coeff_U_ero_mud": ([1, 2], [1.25, 1.75]), "coeff_U_ero_sand": ([1, 2], [1.25, 1.5]),
    "alpha": ([0, 1], [0.05, 0.25]), "stepmax": ([40, 50], [60.0, 70.0]), "sand_frac_bc": ([0, 1], [0.5, 0.25]),
    "sub_number": ([1, 2], [1.5, 2.5]), "sub_maybe": ([5, 0], None),
}
BASE = dict(Length=600.0, Width=1000.0, dx=50.0, L0_meters=100.0)
SUBS = {"sub_number": {"type": ["float", "int"], "default": 4.5}, "sub_flag": {"type": "bool", "default": True},
        "sub_maybe": {"type": ["int", "None"], "default": None}, "sub_text": {"type": "str", "default": "abc"}}


class Sub(models.DeltaModel):
    def hook_import_files(self):
        for k, v in SUBS.items():
            self.subclass_parameters[k] = dict(v)


class Clash(models.DeltaModel):
    """Tries to take over names of the model."""

    def hook_import_files(self):
        for k, v in SUBS.items():
            self.subclass_parameters[k] = dict(v)
        self.subclass_parameters["u0"] = {"type": "str", "default": "mine"}
        self.subclass_parameters["alpha"] = {"type": ["float", "int"], "default": 77.0}


def tok(v):
    if v is None:
        return "None"
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        return repr(float(v))
    if isinstance(v, str):
        return "s:" + v
    return "?" + type(v).__name__


def src(v, given=True, over=False):
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    return {"given": given, "type": type(v).__name__ if v is not None else "None", "tok": tok(v),
            "neg": bool(num and v < 0), "zero": bool(num and v == 0), "gt1": bool(num and v > 1), "over": over}


ABSENT = src("", False)


def value(k, cls, which, types, work):
    """A value of this class for parameter k; which: 0 keyword, 1 file."""
    g = GOOD.get(k, ([3, 4], [1.5, 2.5]))
    if cls == "int":
        return g[0][which]
    if cls == "float":
        return (g[1] or [2.5, 1.5])[which]
    if cls == "bool":
        if k == "resume_checkpoint":
            return False  # (there is nothing to resume from)
        return which == 0
    if cls == "str":
        return os.path.join(work, "o%d" % which) if k == "out_dir" else ["abc", "5"][which]
    if cls == "None":
        return None
    if cls == "list":
        return [1, 2]
    v = {"neg": -1, "zero": 0, "big": 1.25}[cls]
    if "float" not in types:
        return int(v)
    return float(v) if which else v


RANGED = ["Length", "Width", "dx", "L0_meters", "itermax", "Np_water", "N0_meters", "Np_sed", "f_bedload",
          "active_layer_thickness", "C0_percent", "Csmooth", "If", "u0", "H_SL", "alpha"]


def assign(m, sets):
    """Assign parameters of a living model; what is refused must not stick."""
    out = []
    for k, v in sets:
        before = tok(getattr(m, k)) if k != "If" or hasattr(m, "_If") else ""
        old = getattr(m, k) if before else None
        over = k == "dx" and v > min(m.Length, m.Width)
        try:
            setattr(m, k, v)
            how = "accepted"
        except Exception as x:
            how = type(x).__name__
        after = tok(getattr(m, k)) if k != "If" or hasattr(m, "_If") else ""
        out.append({"k": k, "v": src(v, True, bool(over)), "how": how, "before": before, "after": after})
        if how == "accepted" and before:
            setattr(m, k, old)
    return out


def construct(a):
    """Construct one model; returns the event."""
    work, kw, fl, keys, cls = a["work"], dict(a["kw"]), dict(a["file"]), a["keys"], a["cls"]
    os.makedirs(work)
    if "out_dir" not in kw and "out_dir" not in fl:
        if a["outkw"]:
            kw["out_dir"] = os.path.join(work, "out")
        else:
            fl["out_dir"] = os.path.join(work, "out")
    f = None
    if fl or a["forcefile"]:
        f = models.write_yaml(os.path.join(work, "in.yml"), fl)
        if a.get("spelt"):  # a number in another spelling
            k, txt = a["spelt"]
            with open(f) as g:
                lines = [x for x in g if not x.startswith(k + ":")]
            with open(f, "w") as g:
                g.writelines(lines + ["%s: %s\n" % (k, txt)])
    os.chdir(work)
    e = {"ev": "case", "items": [], "outcome": "accepted", "unknown": [], "files": 0, "spurious": False}
    m = None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            m = cls(input_file=f, **kw)
        except Exception as x:
            e["outcome"] = type(x).__name__
            e["msg"] = str(x)[:80]
    msgs = [str(w.message) for w in ws if issubclass(w.category, UserWarning)]
    win = dict(fl)
    win.update(kw)

    def given(d, k):
        if k not in d:
            return ABSENT
        try:
            over = k == "dx" and d[k] > min(win.get("Length", 5000.0), win.get("Width", 10000.0))
        except TypeError:
            over = False
        return src(d[k], True, bool(over))

    h0 = win.get("h0", 5.0)
    for k in keys:
        both = [x for x in msgs if re.search(r"(?<!\w)%s(?!\w)" % k, x)]
        null = ""
        if k == "hb":
            null = tok(h0)
        elif k == "active_layer_thickness":
            null = tok(h0 / 2) if isinstance(h0, (int, float)) else ""
        elif k == "checkpoint_dt":
            null = tok(win.get("save_dt", 86400))
        elif k == "seed":
            null = "any"
        elif k == "stepmax":
            null = "any"
            if m is not None:
                null = tok(2 * (m.L + m.W))
        it = {"k": k, "kw": given(kw, k), "file": given(fl, k), "warned": bool(both), "nullMeans": null,
              "exposed": tok(getattr(m, k, "?missing")) if m is not None else ""}
        if k == "save_metadata" and any(x.startswith("save_") and win[x] is True and
                                        ("grids" in x or "components" in x) for x in win) \
                and isinstance(win.get(k, True), bool):
            continue  # turned on by saving any grid
        if cls is Clash and k in ("u0", "alpha") and not (k in kw and k in fl):
            it["warned"] = False  # (reported as clashing, see below)
        e["items"].append(it)
    for k in a["unknown"]:
        e["unknown"].append({"k": k, "warned": any(re.search(r"(?<!\w)%s(?!\w)" % k, x) for x in msgs)})
    if not a["unknown"]:
        e["spurious"] = any("unused" in x for x in msgs)
    if cls is Clash:
        e["unknown"].append({"k": "clash", "warned": any("ubclass" in x for x in msgs)})
    for d, _, fs in os.walk(work):
        e["files"] += sum(1 for x in fs if x.endswith((".nc", ".npz", ".png")))
    e["sets"] = assign(m, a["sets"]) if m is not None else []
    if m is not None:
        try:
            m.finalize()
        except Exception:
            pass
    import logging
    for name in list(logging.root.manager.loggerDict):
        if work in name:
            for h in list(logging.getLogger(name).handlers):
                h.close()
                logging.getLogger(name).removeHandler(h)
            del logging.root.manager.loggerDict[name]
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)
    return e


def batch(a):
    return [construct(x) for x in a]


def run(chk):
    chk.design("Config", "Config.cfg")
    cases = chk.generate("ConfigGen", "ConfigGen.cfg")
    cases.sort(key=lambda c: (c["k"], c["kw"], c["file"]))
    models.warm(chk.scratch, full=False)
    rnd = random.Random(chk.seed)
    names = sorted({c["k"] for c in cases})
    types = {}
    for k in names:
        types[k] = ["float"] if k in GOOD and GOOD[k][1] else []
    args = []
    for i, c in enumerate(cases):
        k = c["k"]
        w = os.path.join(chk.scratch, "k%d" % i)
        kw, fl = {}, {}
        if c["kw"] != "absent":
            kw[k] = value(k, c["kw"], 0, types[k], w)
        if c["file"] != "absent":
            fl[k] = value(k, c["file"], 1, types[k], w)
        sub = k.startswith("sub_") or i % 5 == 0
        for b in BASE:
            if b != k:
                (kw if i % 2 else fl)[b] = BASE[b]
        keys = [k] + rnd.sample([x for x in names if x != k and (sub or x[:4] != "sub_") and x != "out_dir"], 5)
        unknown = []
        if i % 7 == 0:
            unknown = ["no_such_key", "matrix", "u_0", "Seed", "subsidence", "dt", "time_iter", "L", "figs", "out"][i // 7 % 10: i // 7 % 10 + 1]
            (kw if i % 3 else fl)[unknown[0]] = 3
            more = [x for x in ("ensemble", "no_such_key", "set", "omega", "matrix") if x not in unknown]
            for x in rnd.sample(more, rnd.choice([0, 1, 2])):
                unknown.append(x)
                (fl if i % 2 else kw)[x] = 2
        if i % 7 == 3:
            fl["timesteps"] = 3
        args.append(dict(work=w, kw=kw, file=fl, keys=keys, unknown=unknown, outkw=i % 2 == 0,
                         forcefile=False, cls=(Clash if i % 10 == 0 and k not in ("u0", "alpha") else Sub)
                         if sub else models.DeltaModel))
    # whole configurations, everything exposed, sometimes with one or two flaws
    n = 2000 if chk.thorough else 300
    for j in range(n):
        w = os.path.join(chk.scratch, "w%d" % j)
        kw, fl = {}, {}
        for k in names:
            if k in ("out_dir", "resume_checkpoint"):
                continue
            for which, d in ((0, kw), (1, fl)):
                if rnd.random() < 0.3:
                    g = GOOD.get(k)
                    opt = ["int"] + (["float"] if g and g[1] else []) if g else (
                        ["str"] if k == "sub_text" else ["bool"])
                    if k in ("hb", "seed", "stepmax", "checkpoint_dt", "active_layer_thickness", "sub_maybe"):
                        opt.append("None")
                    if rnd.random() < 0.01:
                        opt = ["list", "str", "bool"] + (["neg"] if k in ("Np_sed", "Csmooth", "dx", "N0_meters") else [])
                    d[k] = value(k, rnd.choice(opt), which, types[k], w)
        for b in BASE:
            if b not in kw and b not in fl:
                fl[b] = BASE[b]
        if j % 9 == 0:
            kw["dx"] = rnd.choice([2000.0, 100000, 700.0, 700])
            if j % 2:  # longer than wide, with cells of a size in between
                kw.update(Length=rnd.choice([900.0, 1000]), Width=rnd.choice([600, 650.0]))
        if "save_figs" in str(kw) or True:
            for d in (kw, fl):  # figures are slow
                for k in list(d):
                    if k.endswith("_figs") and isinstance(d[k], bool):
                        d[k] = False if k != "save_figs_sequential" else d[k]
        args.append(dict(work=w, kw=kw, file=fl, keys=[k for k in names if k != "out_dir"], unknown=[],
                         outkw=j % 2 == 0, forcefile=False, cls=[Sub, Clash, Sub][j % 3]))
    # numbers as one may write them
    spelt = [("SLR", x) for x in ("1e-8", "1E-8", "2.5e-9", ".5e-8", "+1e-8", "-1e-9", "1.e-8", "1e-08", ".25E-8")]
    spelt += [("Length", x) for x in ("6e2", "6E2", "6e+2", ".6e3", "6.0e2", "600.", "+600.0", ".5E+3", "0.06e4", "5.e2")]
    spelt += [("start_subsidence", x) for x in ("1e6", "1E6", "25e1", ".5e3", "2.16e5", "1e10", "1e+10")]
    spelt += [("H_SL", x) for x in (".5", "-0.5", "1e0", ".1e1", "-2e0", "0.")]
    for j, (k, x) in enumerate(spelt):
        fl = dict(BASE)
        fl[k] = float(x)
        args.append(dict(work=os.path.join(chk.scratch, "s%d" % j), kw={}, file=fl, keys=[k, "u0", "h0"], unknown=[],
                         outkw=j % 2 == 0, forcefile=True, cls=models.DeltaModel, spelt=(k, x)))
    # the defaults, all of them
    for j, (o, f) in enumerate([(True, False), (False, True)]):
        args.append(dict(work=os.path.join(chk.scratch, "d%d" % j), kw={}, file={},
                         keys=[k for k in names if k[:4] != "sub_" and k != "out_dir"],
                         unknown=[], outkw=o, forcefile=f, cls=models.DeltaModel))
    for a in args:
        a["sets"] = [(rnd.choice(RANGED), rnd.choice([-1, 0, 0.0, -0.25, 1, 1.25, 0.5, 45, 700.0, 900, 20000])) for _ in range(6)]
    rnd.shuffle(args)
    size = 24
    groups = [args[i:i + size] for i in range(0, len(args), size)]
    res = vlib.run_forked(batch, groups, chk.scratch, timeout=200)
    traces = []
    for g, r in zip(groups, res):
        info = {"cases": [{"kw": x["kw"], "file": x["file"]} for x in g]}
        traces.append((info, r["val"] if r.get("ok") else [vlib.errev(r)]))
    import yaml
    with open(os.path.join(os.path.dirname(models.pyDeltaRCM.__file__), "default.yml")) as f:
        own = list(yaml.safe_load(f))
    traces.append(({}, [{"ev": "names", "names": own + list(SUBS)}]))
    chk.validate("ConfigTrace", traces)
