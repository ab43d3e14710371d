"""C20: the log of a run (spec/Log*)."""
import contextlib
import io
import os
import platform
import random
import re
import shutil
import sys
import time
import warnings

import numpy as np
import yaml

import jobs
import models
import vlib
from models import FastModel

LINE = re.compile(r"^\d{4}-\d\d-\d\d \S+ - (\w+) - (.*)$")
CLOCK = re.compile(r"Time: *([-+.\de]+) *; *timestep: *([-+.\de]+)")
CONF = re.compile(r"onfiguration variable `?(\w+)`? *: *(.*)$")
SEED = re.compile(r"[Ss]eed is: *(\S+)")


class Knobs(FastModel):
    """A model with parameters of its own."""

    def hook_import_files(self):
        self.subclass_parameters["knob"] = {"type": ["int", "float"], "default": 0.25}
        self.subclass_parameters["label"] = {"type": "str", "default": "plain"}

    def solve_water_and_sediment_timestep(self):
        if getattr(self, "broken", False):
            raise ValueError("deliberate failure in timestep")
        super().solve_water_and_sediment_timestep()


class Breaks(FastModel):
    """A model that fails after some timesteps, if its diffusion says so."""

    def solve_water_and_sediment_timestep(self):
        k = round((self.alpha - 0.1) * 1000)
        if k and self.time_iter >= k - 1:
            raise ValueError("deliberate failure in timestep %d" % k)
        super().solve_water_and_sediment_timestep()


def norm(v):
    v = str(v).strip()
    try:
        return repr(float(v))
    except ValueError:
        return v


def clocks(lines):
    o = []
    for x in lines:
        m = CLOCK.search(x)
        if m:
            o.append([vlib.exact(float(m.group(1)), 10), vlib.exact(float(m.group(2)))])
    return o


class Folder:
    """The log of a folder, read piece by piece."""

    def __init__(self, work, d):
        self.work, self.d, self.seen = work, d, 0

    def files(self):
        return sorted(os.path.join(self.d, f) for f in os.listdir(self.d) if f.endswith(".log")) \
            if os.path.isdir(self.d) else []

    def text(self):
        return "".join(open(f).read() for f in self.files())

    def new(self, logs):
        t = self.text()
        new, self.seen = t[self.seen:], len(t)
        o = entries(new)
        fs = [f for _, _, g in os.walk(self.work) for f in g if f.endswith(".log")]
        # at most one log for each model of this folder, none anywhere else
        o["astray"] = len(fs) - len(self.files()) + max(0, len(fs) - logs) + (1 if logs and not fs else 0)
        return o


def entries(text):
    o = dict(times=[], conf=[], seeds=[], heads=[], type=[], notes=[], errs=0)
    raw = text.splitlines()
    for x in raw:
        m = LINE.match(x)
        if not m:
            continue
        lev, msg = m.groups()
        o["errs"] += lev == "ERROR"
        o["times"] += clocks([msg])
        c = CONF.search(msg)
        if c:
            o["conf"].append([c.group(1), norm(c.group(2))])
        c = SEED.search(msg)
        if c:
            o["seeds"].append(c.group(1))
        c = re.search(r"pyDeltaRCM version (\S+)|Python version (\S+)|Platform: (.*)$", msg)
        if c:
            o["heads"].append(next(g for g in c.groups() if g is not None))
        c = re.search(r"Model type is: *(\S+)", msg)
        if c:
            o["type"].append(c.group(1))
        if "probe:" in msg:
            o["notes"].append(msg[msg.index("probe:"):].strip())
    return o


def defaults():
    with open(os.path.join(os.path.dirname(models.pyDeltaRCM.__file__), "default.yml")) as f:
        return {k: v["default"] for k, v in yaml.safe_load(f).items()}


def history(a):
    """A history of models in a folder, generated from the specification."""
    warnings.simplefilter("ignore")
    work = a["work"]
    os.makedirs(work)
    d = os.path.join(work, "out")
    cfg = dict(a["cfg"], out_dir=d)
    F = Folder(work, d)
    m, evs, logs = None, [], 0
    last = 0
    for j, o in enumerate(a["h"]):
        e = dict(ev="op", op=o["op"], v=o["v"], raised=False, it=-1, text="", seedx="", version=models.pyDeltaRCM.__version__,
                 python=sys.version.split()[0], platform=platform.platform(), cls="Knobs")
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if o["op"] in ("start", "resume"):
                while int(time.time()) == last:
                    time.sleep(0.02)
                last = int(time.time())
                kw = dict(cfg, verbose=o["v"])
                if o["op"] == "resume":
                    kw["resume_checkpoint"] = True
                if a["via"] == "file":
                    f = models.write_yaml(os.path.join(work, "in%d.yml" % j), kw)
                    m = Knobs(input_file=f)
                else:
                    m = Knobs(**kw)
                last = max(last, int(time.time()))
                logs += 1
                e["it"] = int(m.time_iter)
                e["seedx"] = str(m.seed)
            elif o["op"] == "step":
                m.update()
            elif o["op"] == "save":
                m.save_the_checkpoint()
            elif o["op"] == "louder":
                m.verbose = o["v"]
            elif o["op"] == "end":
                m.finalize()
            elif o["op"] == "fail":
                m.broken = True
                try:
                    m.update()
                except ValueError:
                    e["raised"] = True
            elif o["op"] == "note":
                e["text"] = "probe: %d of %d" % (j, o["v"])
                if o["v"] == 0 and j % 2:
                    m.log_info(e["text"])
                elif j % 3 == 0:
                    m.log_info(e["text"], o["v"])
                else:
                    m.log_info(e["text"], verbosity=o["v"])
        e["prints"] = clocks(buf.getvalue().splitlines())
        e.update(F.new(logs))
        evs.append(e)
    shutil.rmtree(work, ignore_errors=True)
    return evs


def levels(a):
    """The same run at each verbosity."""
    warnings.simplefilter("ignore")
    work = a["work"]
    logs, res = [], []
    for v in range(4):
        d = os.path.join(work, "v%d" % v)
        cls = models.DeltaModel if a["real"] else Knobs
        with contextlib.redirect_stdout(io.StringIO()):
            m = cls(**dict(a["cfg"], out_dir=d, verbose=v))
            for _ in range(a["n"]):
                m.update()
            res.append([models.core_digest(m), models.rng_digest()])
            m.finalize()
        ls = []
        for x in Folder(work, d).text().splitlines():
            g = LINE.match(x)
            if g and not re.search("`(out_dir|verbose)`", g.group(2)):
                ls.append(g.group(2).replace(d, "OUT")[:160])
        logs.append(ls)
    shutil.rmtree(work, ignore_errors=True)
    return [dict(ev="levels", logs=logs, res=["%s/%s" % tuple(x) for x in res])]


def reseed(a):
    """A run whose seed was chosen by the model, repeated from its log."""
    warnings.simplefilter("ignore")
    work = a["work"]
    e = dict(ev="reseed", got=False, a="", b="-")
    cfg = {k: v for k, v in a["cfg"].items() if k != "seed"}
    cls = models.DeltaModel if a["real"] else FastModel

    def go(d, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            m = cls(**dict(cfg, out_dir=d, **kw))
            for _ in range(a["n"]):
                m.update()
            r = "%s/%s" % (models.core_digest(m), models.rng_digest())
            m.finalize()
        return r, entries(Folder(work, d).text())["seeds"]

    e["a"], s = go(os.path.join(work, "a"))
    if len(s) == 1 and s[0].lstrip("-").isdigit():
        e["got"] = True
        np.random.seed(5)
        e["b"], _ = go(os.path.join(work, "b"), seed=int(s[0]))
    shutil.rmtree(work, ignore_errors=True)
    return [e]


def jobset(a):
    """Jobs of a set, some failing, each with its log."""
    warnings.simplefilter("ignore")
    work = a["work"]
    os.makedirs(work)
    cfg = models.base_cfg(os.path.join(work, "out"), dt=a["dt"], timesteps=a["n"], verbose=a["v"])
    del cfg["seed"]
    js = [{"alpha": 0.1 + k / 1000, "seed": 10 + i} for i, k in enumerate(a["fails"])]
    cfg["set"] = js
    f = models.write_yaml(os.path.join(work, "in.yml"), cfg)
    pp, txt = jobs.run_pp(f, {}, a["via"], a["par"] or None, Breaks)
    evs = []
    ds = sorted(x for x in os.listdir(cfg["out_dir"]) if os.path.isdir(os.path.join(cfg["out_dir"], x)))
    for i, x in enumerate(ds):
        k = a["fails"][i]
        t = Folder(work, os.path.join(cfg["out_dir"], x)).text()
        e = dict(ev="job", i=i, dt=int(a["dt"] * 10), fail=0 < k <= a["n"], seedx=str(js[i]["seed"]))
        e["n"] = k - 1 if e["fail"] else a["n"]
        n = entries(t)
        e.update(times=n["times"], errs=n["errs"], seeds=n["seeds"],
                 msgs=sum("deliberate failure in timestep" in y for y in t.splitlines()))
        want = dict(models.SMALL, alpha=js[i]["alpha"], seed=js[i]["seed"], u0=cfg["u0"], C0_percent=cfg["C0_percent"])
        got = dict(n["conf"])
        ks = sorted(want)
        e["conf"] = [[y, got.get(y, "-")] for y in ks]
        e["confx"] = [[y, norm(want[y])] for y in ks]
        evs.append(e)
    shutil.rmtree(work, ignore_errors=True)
    return evs


def run(chk):
    chk.design("Log", "LogBig.cfg" if chk.thorough else "Log.cfg")
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    hs = chk.simulate("LogGen", "LogGen.cfg", 900 if chk.thorough else 80, 14, chk.seed)
    dflt = defaults()
    odd = dict(H_SL=[0.5, -1.25], SLR=[1e-8, -2e-9], f_bedload=[0.25, 0, 1], Csmooth=[0.75], toggle_subsidence=[True],
               hb=[4.0, 0.0], stepmax=[50], active_layer_thickness=[0.3], theta_water=[0.5, 2.0], alpha=[0.05],
               checkpoint_dt=[5000], omega_flow=[0.5], knob=[3, 0.125, -1.5e-7], label=["rough", "1e5x"],
               save_figs_sequential=[False], sand_frac_bc=[0.5], subsidence_rate=[1e-9], coeff_U_ero_mud=[2])
    hargs, traces = [], []
    for i, h in enumerate(hs):
        dt = rnd.choice([187.5, 750.0, 300.0, 15000.0])
        c = models.base_cfg("", dt=dt, seed=rnd.choice([3, 0, 42, 2 ** 31]))
        for k in rnd.sample(sorted(odd), rnd.randint(0, 6)):
            c[k] = rnd.choice(odd[k])
        if i % 5 == 0:
            del c["seed"]
        a = dict(work=os.path.join(chk.scratch, "h%d" % i), h=h["h"], cfg=c, via=["kw", "file"][i % 2])
        full = dict(dflt, knob=0.25, label="plain")
        full.update(c, out_dir=os.path.join(a["work"], "out"), verbose=h["h"][0]["v"])
        a["scn"] = dict(dt=int(dt * 10), seed=str(c.get("seed", "")),
                        conf=[[k, norm(v)] for k, v in sorted(full.items())], h=h["h"])
        hargs.append(a)
    for a, x in zip(hargs, vlib.run_forked(history, hargs, chk.scratch, timeout=180)):
        traces.append(({"cfg": a["scn"]}, x["val"] if x.get("ok") else [vlib.errev(x)]))

    def others(fn, args, timeout=240):
        for a, x in zip(args, vlib.run_forked(fn, args, chk.scratch, timeout=timeout)):
            traces.append(({"cfg": {"of": {k: v for k, v in a.items() if k not in ("work", "cfg")}}},
                           x["val"] if x.get("ok") else [vlib.errev(x)]))

    grids = dict(save_eta_grids=True, save_velocity_grids=True, save_metadata=True, save_dt=750, save_checkpoint=True,
                 toggle_subsidence=True, start_subsidence=750)
    others(levels, [dict(work=os.path.join(chk.scratch, "l%d" % i), n=2 + i % 2, real=i % 2 == 0,
                         cfg=models.base_cfg("", seed=rnd.randint(0, 10 ** 6), **(grids if i % 3 else {})))
                    for i in range(24 if chk.thorough else 8)])
    others(reseed, [dict(work=os.path.join(chk.scratch, "r%d" % i), n=rnd.randint(0, 3), real=i % 3 == 0,
                         cfg=models.base_cfg("")) for i in range(40 if chk.thorough else 12)])
    js = []
    for i in range(30 if chk.thorough else 10):
        n = rnd.randint(1, 4)
        js.append(dict(work=os.path.join(chk.scratch, "j%d" % i), dt=rnd.choice([750.0, 187.5]), n=n,
                       fails=[rnd.choice([0, 0, rnd.randint(1, n), n + 3]) for _ in range(rnd.randint(1, 3))],
                       via=["py", "cli"][i % 2], par=[0, 2, True][i % 3], v=rnd.choice([0, 1, 2])))
    others(jobset, js)
    chk.validate("LogTrace", traces, parts=8)
