"""C09: the protocol of hooks and methods (spec/Proto*)."""
import json
import os
import random
import shutil
import warnings

import numpy as np

import models
import vlib

METHODS = [
    "import_files", "process_input_to_model", "create_other_variables", "create_domain",
    "load_checkpoint", "init_output_file", "output_data", "output_checkpoint",
    "solve_water_and_sediment_timestep", "apply_subsidence", "finalize_timestep",
    "route_water", "init_water_iteration", "run_water_iteration", "compute_free_surface",
    "finalize_water_iteration", "route_sediment", "init_sediment_iteration",
    "route_all_sand_parcels", "topo_diffusion", "route_all_mud_parcels", "compute_sand_frac",
]
EXTRA_HOOKS = ["after_create_domain", "after_route_water", "after_route_sediment", "after_finalize_timestep"]
FIELDS = models.CORE_FIELDS + ["qs", "eta0", "Vp_dep_sand", "Vp_dep_mud", "qxn", "qyn", "qwn", "sfc_visit", "sfc_sum",
                               "cell_type", "inlet"]
SCALARS = ["H_SL", "dt", "u0", "h0", "C0_percent", "f_bedload", "SLR", "seed", "L", "W", "Qw0", "Vp_sed"]


class Boom(Exception):
    pass


class Ctx:
    """Recorder; with a file, events survive in children as well."""

    def __init__(self, path=None):
        self.path = path
        self.evs = []
        self.arm = None  # (kind, name, occurrence left)
        self.stack = []
        self.depth = 0

    def add(self, e):
        if self.path:
            with open(self.path % os.getpid() if "%" in self.path else self.path, "a") as f:
                f.write(json.dumps(e) + "\n")
        else:
            self.evs.append(e)

    def fire(self, kind, name):
        if self.arm and self.arm[0] == kind and self.arm[1] == name:
            self.arm[2] -= 1
            if self.arm[2] == 0:
                self.arm = None
                return True
        return False


def state(m):
    fs = []
    for f in FIELDS:
        v = getattr(m, f, None)
        if v is not None and not (f == "eta0"):
            fs.append(f)
            fs.append(np.asarray(v))
    for s in SCALARS:
        try:
            fs.append(repr(getattr(m, s)))
        except Exception:
            fs.append("-")
    return vlib.digest(*fs) + models.rng_digest()


def snap(m, ev, n, a=0):
    return {"ev": ev, "n": n, "a": int(a), "t": vlib.exact(getattr(m, "time", 0.0), 2), "it": int(getattr(m, "time_iter", 0)),
            "dig": state(m), "boom": False, "failed": False, "exc": ""}


def make(base, ctxs):
    """A subclass of base recording into ctxs(self)."""

    def hook(n):
        def f(self, *a):
            e = snap(self, "hook", n, a[0] if a else 0)
            x = ctxs(self)
            e["boom"] = x.fire("H", n)
            x.add(e)
            if e["boom"]:
                raise Boom(n)
        f.__name__ = "hook_" + n
        return f

    def meth(n):
        sup = getattr(base, n)

        def f(self, *a, **k):
            x = ctxs(self)
            arg = a[0] if (a and n == "finalize_water_iteration") else 0
            x.add(snap(self, "enter", n, arg))
            exc, boom = "", False
            try:
                sup(self, *a, **k)
                boom = x.fire("M", n)
                if boom:
                    raise Boom(n)
            except BaseException as y:
                exc = type(y).__name__
                raise
            finally:
                e = snap(self, "leave", n, arg)
                e["failed"], e["exc"], e["boom"] = bool(exc), exc, boom
                x.add(e)
        f.__name__ = n
        return f

    d = {"hook_" + n: hook(n) for n in METHODS + EXTRA_HOOKS}
    d.update({n: meth(n) for n in METHODS})
    return type("Rec", (base,), d)


def isopen(m):
    try:
        return bool(m.output_netcdf.isopen())
    except AttributeError:
        return False


def files(d):
    out = []
    for r, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if f.endswith((".nc", ".npz", ".png")):
                with open(os.path.join(r, f), "rb") as g:
                    out.append(f + vlib.digest(g.read()))
    return vlib.digest(*out)


def outer(x, m, n, fn, d):
    """A pass seen from outside."""
    e = snap(m, "enter", n)
    e["files"] = files(d)
    x.add(e)
    exc = ""
    try:
        fn()
    except BaseException as y:
        exc = type(y).__name__
    e = snap(m, "leave", n)
    e.update(failed=bool(exc), exc=exc, files=files(d), open=isopen(m))
    x.add(e)
    return exc


class Stub:
    """Stands for a model that does not exist yet."""


def play(a):
    """One scenario: construction, timesteps, failure at a point, finalization."""
    warnings.simplefilter("ignore")
    d, c, pt = a["dir"], a["c"], a["pt"]
    x = Ctx()
    opts = dict(a["opts"])
    base = models.FastModel if a["fast"] else models.DeltaModel
    cfg = models.base_cfg(d, a["dt"], itermax=c["itermax"], **opts)
    traces = []
    it0, t0 = 0, 0
    if c["resume"]:
        pre = dict(cfg, save_checkpoint=True, save_dt=1, save_eta_grids=True)
        m = base(**pre)
        m.update()
        it0, t0 = m.time_iter, vlib.exact(m.time, 2)
        m.finalize()
        if c["newfile"]:
            os.remove(os.path.join(d, models.NC))
        cfg["resume_checkpoint"] = True
    Rec = make(base, lambda self: x)
    if pt and pt["pass"] == "init":
        x.arm = [pt["k"], pt["n"], pt["occ"]]
    e = snap(Stub(), "enter", "init")
    e["t"], e["it"] = t0, it0
    x.add(e)
    m, exc = None, ""
    try:
        m = Rec(defer_output=c["defer"], **cfg)
    except BaseException as y:
        exc = type(y).__name__
    e = snap(m if m is not None else Stub(), "leave", "init")
    e.update(failed=bool(exc), exc=exc, files="", open=False)
    x.add(e)
    tr = {"itermax": c["itermax"], "resume": c["resume"], "defer": c["defer"], "newfile": c["newfile"],
          "dt": vlib.exact(a["dt"], 2), "t0": t0, "it0": it0, "track": not c["resume"]}
    if m is None:
        return [[{"cfg": tr, "pt": pt, "opts": opts}, x.evs]]
    if c["resume"]:  # the rest is another trace, with the clock that was loaded
        traces.append([{"cfg": dict(tr), "pt": pt, "opts": opts}, list(x.evs)])
        x.evs.clear()
        tr.update(track=True)
        if c["defer"]:
            m.load_checkpoint(defer_output=False)
            x.evs.clear()
    elif c["defer"]:
        if pt and pt["pass"] == "start":
            x.arm = [pt["k"], pt["n"], pt["occ"]]

        def start():
            for n in ("init_output_file", "output_data", "output_checkpoint"):
                getattr(m, "hook_" + n)()
                getattr(m, n)()
        if outer(x, m, "start", start, d):
            a["steps"] = 0  # (no output to write to)
    for k in range(a["steps"]):
        if pt and pt["pass"] == "update" and k == a["at"]:
            x.arm = [pt["k"], pt["n"], pt["occ"]]
        outer(x, m, "update", m.update, d)
        x.arm = None
    outer(x, m, "finalize", m.finalize, d)
    for k in a["post"]:
        outer(x, m, k, getattr(m, k), d)
    shutil.rmtree(d, ignore_errors=True)
    traces.append([{"cfg": tr, "pt": pt, "opts": opts}, x.evs])
    return traces


def jobs(a):
    """The same protocol for jobs of the preprocessor."""
    warnings.simplefilter("ignore")
    from pyDeltaRCM.preprocessor import Preprocessor
    d = a["dir"]
    cfg = models.base_cfg(d, a["dt"], timesteps=2, verbose=0, **a["opts"])
    cfg.pop("seed")
    cfg["matrix"] = {"seed": [1, 2, 3][:a["n"]]}
    ctx = {}

    def of(self):
        # the folder is unknown until the file is imported
        p = os.path.join(a["log"], os.path.basename(os.path.dirname(str(self.input_file))))
        return ctx.setdefault(p, Ctx(p))
    Rec = make(models.DeltaModel, of)

    class Top(Rec):
        def __init__(self, *q, **k):
            self.input_file = k.get("input_file") or q[0]
            s = Stub()
            of(self).add(snap(s, "enter", "init"))
            super().__init__(*q, **k)
            e = snap(self, "leave", "init")
            e.update(files="", open=False)
            of(self).add(e)
            self._started = not k.get("defer_output")

        def hook_init_output_file(self):
            if getattr(self, "_started", True) is False:
                of(self).add(snap(self, "enter", "start"))
                of(self).depth = 1
            super().hook_init_output_file()

        def output_checkpoint(self):
            super().output_checkpoint()
            if getattr(self, "_started", True) is False:
                self._started = True
                e = snap(self, "leave", "start")
                e.update(files="", open=False)
                of(self).add(e)

        def update(self):
            e = snap(self, "enter", "update")
            e["files"] = ""
            of(self).add(e)
            super().update()
            e = snap(self, "leave", "update")
            e.update(files="", open=False)
            of(self).add(e)

        def finalize(self):
            e = snap(self, "enter", "finalize")
            e["files"] = ""
            of(self).add(e)
            super().finalize()
            e = snap(self, "leave", "finalize")
            e.update(files="", open=isopen(self))
            of(self).add(e)
    os.makedirs(a["log"])
    pp = Preprocessor(models.write_yaml(d + ".yml", cfg), parallel=a["par"])
    pp.run_jobs(DeltaModel=Top)
    out = []
    tr = {"itermax": 1, "resume": False, "defer": bool(a["par"]), "newfile": False,
          "dt": vlib.exact(a["dt"], 2), "t0": 0, "it0": 0, "track": True}
    for f in sorted(os.listdir(a["log"])):
        with open(os.path.join(a["log"], f)) as g:
            evs = [json.loads(q) for q in g]
        out.append([{"cfg": tr, "job": f}, evs])
        n = [e["n"] for e in evs if e["ev"] == "leave"]
        out[-1][1].append({"ev": "fact", "name": "jobs-follow-the-same-protocol",
                           "ok": n.count("update") == 2 and n.count("finalize") == 1 and n.count("init") == 1
                           and n.count("start") == (1 if a["par"] else 0)})
    return out


def facts(a):
    """Deprecated hooks are refused; the alias of the timestep works."""
    warnings.simplefilter("ignore")
    evs = []
    for old in ("hook_sed_route", "hook_run_one_timestep"):
        K = type("Old", (models.FastModel,), {old: lambda self: None})
        try:
            K(**models.base_cfg(os.path.join(a["dir"], old)))
            ok = False
        except AttributeError:
            ok = not os.path.exists(os.path.join(a["dir"], old))
        evs.append({"ev": "fact", "name": "deprecated-hooks-are-refused", "ok": ok})
    for alias, real in (("run_one_timestep", "solve_water_and_sediment_timestep"), ("sed_route", "route_sediment")):
        calls = []
        K = type("Al", (models.FastModel,), {real: lambda self: calls.append(1)})
        m = K(**models.base_cfg(os.path.join(a["dir"], alias)))
        getattr(m, alias)()
        evs.append({"ev": "fact", "name": "deprecated-methods-run-their-successor", "ok": calls == [1]})
        m.finalize()
    tr = {"itermax": 1, "resume": False, "defer": False, "newfile": False, "dt": 1, "t0": 0, "it0": 0, "track": False}
    return [[{"cfg": tr}, evs]]


def go(a):
    return {"play": play, "jobs": jobs, "facts": facts}[a["do"]](a)


def run(chk):
    chk.design("Proto", "Proto.cfg")
    pts = chk.generate("ProtoGen", "ProtoGen.cfg")
    pts.sort(key=lambda q: json.dumps(q, sort_keys=True))
    rnd = random.Random(chk.seed)
    models.warm(chk.scratch)
    args = []

    def opts():
        o = dict(save_dt=rnd.choice([1, 1000, 10**6]), save_checkpoint=rnd.random() < .5,
                 toggle_subsidence=rnd.random() < .5, start_subsidence=rnd.choice([0, 800.0]), subsidence_rate=1e-6,
                 SLR=rnd.choice([0.0, 1e-6]), verbose=rnd.choice([0, 2]), f_bedload=rnd.choice([0.0, 0.5, 1.0]),
                 alpha=rnd.choice([0.0, 0.1]))
        for k in ("eta", "velocity", "discharge"):
            o["save_%s_grids" % k] = rnd.random() < .4
        if rnd.random() < .3:
            o["save_metadata"] = True
        return o

    def scen(c, pt, fast=False):
        if c["resume"]:
            o = opts()
            o["save_eta_grids"] = True
        else:
            o = opts()
        args.append(dict(do="play", dir=os.path.join(chk.scratch, "p%d" % len(args)), c=c, pt=pt, opts=o,
                         dt=rnd.choice([750.0, 187.5, 1000.0]), steps=rnd.choice([1, 2, 3]) if not pt else 3,
                         at=rnd.randrange(2), fast=fast,
                         post=[rnd.choice(["update", "finalize"]) for _ in range(rnd.choice([1, 2, 3]))]))
    cs = []
    for p in pts:
        if p["c"] not in cs:
            cs.append(p["c"])
    full = [p for p in pts if not (p["c"]["newfile"] and not p["c"]["resume"])]
    rnd.shuffle(full)
    if not chk.thorough:
        # every point, not in every configuration
        seen, few = set(), []
        for p in full:
            k = (p["pass"], p["k"], p["n"], p["occ"], p["c"]["resume"] if p["pass"] == "init" else 0,
                 p["c"]["defer"] if p["pass"] == "init" else 0)
            if k not in seen:
                seen.add(k)
                few.append(p)
        full = few
    for p in full:
        scen(p["c"], p)
    for c in cs:
        for _ in range(8 if chk.thorough else 2):
            scen(c, None)
    scen(dict(itermax=3, resume=False, defer=False, newfile=False), None)
    scen(dict(itermax=0, resume=False, defer=False, newfile=False), None)
    jo = [dict(save_checkpoint=True, save_dt=1, save_eta_grids=True), dict(save_checkpoint=False, save_dt=10**6, save_eta_grids=True),
          dict(save_checkpoint=True, save_dt=1000, save_eta_grids=False, save_metadata=False)]
    for k, (n, par, o) in enumerate([(2, False, 0), (3, 2, 0), (2, 2, 1), (2, 2, 2), (2, False, 1)]):
        args.insert(0, dict(do="jobs", dir=os.path.join(chk.scratch, "j%d" % k), log=os.path.join(chk.scratch, "jl%d" % k),
                            n=n, par=par, opts=jo[o], dt=750.0))
    args.append(dict(do="facts", dir=os.path.join(chk.scratch, "f")))
    res = vlib.run_forked(go, args, chk.scratch, timeout=200)
    traces = []
    tr0 = {"itermax": 1, "resume": False, "defer": False, "newfile": False, "dt": 1, "t0": 0, "it0": 0, "track": False}
    for a, r in zip(args, res):
        if r.get("ok"):
            traces += [(s, e) for s, e in r["val"]]
        else:
            traces.append(({"cfg": tr0, "arg": {k: a[k] for k in a if k != "dir"}}, [vlib.errev(r)]))
    chk.extra["failure_points"] = len(full)
    chk.validate("ProtoTrace", traces)
