"""C04: a run is a function of configuration and seed (spec/Determ*)."""
import glob
import os
import random
import re
import shutil
import subprocess
import sys

import numpy as np

import jobs
import models
import vlib
from models import DeltaModel, FastModel


def recording(real, log, fail=None):
    """A model class that notes its state after every timestep in a file."""
    base = DeltaModel if real else FastModel

    class Rec(base):
        def update(self):
            if fail and os.path.basename(self.out_dir) in fail and self.time_iter == 1:
                raise RuntimeError("planned failure")
            super().update()
            with open(log, "a") as f:
                f.write("%s %s-%s %s\n" % (os.path.basename(self.out_dir), models.core_digest(self),
                                           models.step_digest(self), models.rng_digest()))

    return Rec


def records(out_dir):
    """time -> digest of the bed in the output file."""
    p = os.path.join(out_dir, models.NC)
    if not os.path.exists(p):
        return {}
    ds = models.netCDF4.Dataset(p)
    try:
        if "eta" not in ds.variables:
            return {}
        e = np.array(ds.variables["eta"][:])
        return {"%d" % (2 * t): vlib.digest(np.ascontiguousarray(e[i]))
                for i, t in enumerate(np.array(ds.variables["time"][:]))}
    finally:
        ds.close()


def result(log, out_dir, seed, **kw):
    name = os.path.basename(out_dir)
    steps, rng = [], []
    if os.path.exists(log):
        for x in open(log):
            p = x.split()
            if p[0] == name:
                steps.append(p[1])
                rng.append(p[2])
    lg = ""
    for f in glob.glob(os.path.join(out_dir, "*.log")):
        lg += open(f, errors="replace").read()
    logged = any("seed" in x.lower() and re.search(r"(?<!\d)%s(?!\d)" % seed, x) for x in lg.splitlines())
    e = {"steps": steps, "rng": rng, "recs": records(out_dir), "logged": logged, "seed": str(seed)}
    e.update(kw)
    return e


SAVE = ["save_%s_grids" % x for x in ("eta", "stage", "depth", "discharge", "velocity", "sedflux",
                                      "sandfrac")]
FIGS = ["save_%s_figs" % x for x in ("eta", "depth", "velocity")]


def loud(work, c, i):
    """The same physics, other verbosity and output."""
    d = dict(c, verbose=[2, 1, 3][i % 3], save_dt=[750, 100, 3000][i % 3], save_checkpoint=i % 2 == 0,
             checkpoint_dt=[100, 750][i % 2], save_metadata=i % 3 != 1, legacy_netcdf=i % 3 == 2)
    for k in SAVE[: 1 + i % len(SAVE)]:
        d[k] = True
    if i % 3 == 0:
        for k in FIGS:
            d[k] = True
    return d


def scenario(a):
    work, n, real, seed, var = a["work"], a["n"], a["real"], a["seed"], a["var"]
    os.makedirs(work)
    os.chdir(work)
    c = models.base_cfg(os.path.join(work, "r"), dt=750.0, save_eta_grids=True, save_dt=750, **var)
    c["seed"] = seed
    evs, cnt = [], [0]

    def fresh():
        cnt[0] += 1
        return os.path.join(work, "steps%d" % cnt[0])

    def direct(name, cc, ctx, ev="run", via="kw", want=n):
        lg = fresh()
        R = recording(real, lg)
        cc = dict(cc, out_dir=os.path.join(work, name))
        if via == "yaml":
            m = R(input_file=models.write_yaml(os.path.join(work, name + ".yml"), cc))
        else:
            m = R(**cc)
        for _ in range(want):
            m.update()
        m.finalize()
        evs.append(result(lg, cc["out_dir"], m.seed, ev=ev, ctx=ctx, want=want, wantSeed=str(cc["seed"])))
        return m

    def batch(name, y, ctx, via="py", par=None, fail=None, pick=None):
        """Jobs of one input; those of our configuration and seed are runs."""
        lg = fresh()
        y = dict(y, out_dir=os.path.join(work, name), timesteps=n)
        f = models.write_yaml(os.path.join(work, name + ".yml"), y)
        pp, _ = jobs.run_pp(f, {}, via, par, recording(real, lg, fail))
        for cfg in pp.config_list:
            if str(cfg["seed"]) != str(seed) or (pick and not pick(cfg)):
                continue
            evs.append(result(lg, str(cfg["out_dir"]), cfg["seed"], ev="run", ctx=ctx, want=n,
                              wantSeed=str(seed)))
        return pp

    direct("r", c, "", ev="ref")
    other = (seed + 7919) % 4294967295
    direct("o", dict(c, seed=other), "", ev="other")
    todo = a["ctx"]
    nos = {k: v for k, v in c.items() if k != "seed"}
    for ctx in todo:
        if ctx == "again":
            direct(ctx, c, ctx)
        elif ctx == "yaml":
            direct(ctx, c, ctx, via="yaml")
        elif ctx == "after-others":
            np.random.seed(5)
            np.random.random(11)
            models.shared_tools.set_random_seed(99)
            direct("ao", dict(c, seed=other), "", ev="other")
            random.seed(1)
            models.shared_tools.get_random_uniform(1.0)
            direct(ctx, c, ctx)
        elif ctx.startswith("loud"):
            direct(ctx, loud(work, c, int(ctx[4:])), ctx)
        elif ctx == "quiet":
            direct(ctx, dict(c, save_metadata=False, save_eta_grids=False), ctx)
        elif ctx in ("serial-one", "cli-one"):
            batch(ctx, c, ctx, via="cli" if ctx == "cli-one" else "py")
        elif ctx == "parallel-one":
            batch(ctx, c, ctx, par=1)
        elif ctx in ("serial-many", "parallel-many", "cli-parallel", "serial-last", "parallel-last"):
            s = [seed, other, 5, 6]
            if ctx.endswith("last"):
                s = [other, 6, seed]
            batch(ctx, dict(nos, matrix={"seed": s}), ctx, via="cli" if ctx[0] == "c" else "py",
                  par=2 if "parallel" in ctx else None)
        elif ctx == "serial-failing":
            batch(ctx, dict(nos, matrix={"seed": [other, seed, 9]}), ctx, fail=["job_000"])
        elif ctx == "parallel-failing":
            batch(ctx, dict(nos, matrix={"seed": [other, seed, 9]}), ctx, par=3, fail=["job_000", "job_002"])
        elif ctx in ("serial-mixed", "parallel-mixed"):
            # the sibling draws other numbers of numbers
            batch(ctx, dict({k: v for k, v in nos.items() if k != "Np_water"}, set=[{"seed": seed, "Np_water": 31}, {"seed": seed, "Np_water": c["Np_water"]},
                                      {"seed": other, "Np_water": 11}]), ctx,
                  par=2 if ctx[0] == "p" else None, pick=lambda q: q["Np_water"] == c["Np_water"])
        elif ctx == "job-file":
            pp = batch("jf", dict(nos, matrix={"seed": [other, seed]}), "serial-many")
            lg = fresh()
            f = str(pp.file_list[1])
            y = models.yaml.safe_load(open(f))
            y["out_dir"] = os.path.join(work, "jf2")
            m = recording(real, lg)(input_file=models.write_yaml(os.path.join(work, "jf2.yml"), y))
            for _ in range(n):
                m.update()
            m.finalize()
            evs.append(result(lg, y["out_dir"], m.seed, ev="run", ctx=ctx, want=n, wantSeed=str(seed)))
        elif ctx == "deferred":
            lg = fresh()
            cc = dict(c, out_dir=os.path.join(work, ctx))
            m = recording(real, lg)(defer_output=True, **cc)
            m.init_output_file()
            m.output_data()
            for _ in range(n):
                m.update()
            m.finalize()
            evs.append(result(lg, cc["out_dir"], m.seed, ev="run", ctx=ctx, want=n, wantSeed=str(seed)))
        elif ctx == "old-folder":
            d = dict(c, out_dir=os.path.join(work, ctx), clobber_netcdf=True)
            m = (DeltaModel if real else FastModel)(**dict(d, seed=other, save_checkpoint=True))
            m.update()
            m.finalize()
            direct(ctx, d, ctx)
        elif ctx == "shell":  # a new interpreter, the real command line
            y = dict(c, out_dir=os.path.join(work, "sh out"), timesteps=n)
            f = models.write_yaml(os.path.join(work, "sh.yml"), y)
            subprocess.run([sys.executable, "-B", "-m", "pyDeltaRCM", "--config", f], cwd=work, check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            e = result("", y["out_dir"], seed, ev="run", ctx=ctx, want=0, wantSeed=str(seed))
            if not e["recs"]:
                e["want"] = 1  # no records to compare
            evs.append(e)
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)
    return evs


def unseeded(a):
    """Without a seed: the reported one reproduces the run."""
    work, n, real, how = a["work"], a["n"], a["real"], a["how"]
    os.makedirs(work)
    os.chdir(work)
    c = models.base_cfg(os.path.join(work, "r"), dt=750.0, save_eta_grids=True, save_dt=750)
    del c["seed"]
    if how == "null":
        c["seed"] = None
    lg = os.path.join(work, "steps")
    R = recording(real, lg)
    out = []
    evs = []
    if how in ("none", "null"):
        for k in range(2):
            m = R(**dict(c, out_dir=os.path.join(work, "u%d" % k)))
            for _ in range(n):
                m.update()
            m.finalize()
            out.append((os.path.join(work, "u%d" % k), m.seed, {}))
    else:
        y = dict(c, out_dir=os.path.join(work, "m"), timesteps=n)
        if how.startswith("ens"):
            y["ensemble"] = 3
        else:
            del y["Np_water"]
            y["matrix"] = {"Np_water": [20, 25]}
        f = models.write_yaml(os.path.join(work, "m.yml"), y)
        pp, _ = jobs.run_pp(f, {}, "py", 2 if how.endswith("par") else None, R)
        for i, cfg in enumerate(pp.config_list):
            out.append((str(cfg["out_dir"]), pp.job_list[i].deltamodel.seed, {"Np_water": cfg["Np_water"]}))
        if how.startswith("ens"):
            for cfg, o in zip(pp.config_list, out):
                if str(cfg["seed"]) != str(o[1]):
                    evs.append({"ev": "seeds", "seeds": ["job file", "job file"]})
    evs.append({"ev": "seeds", "seeds": [str(o[1]) for o in out]})
    traces = [evs]
    for d, seed, v in out:
        t = [result(lg, d, seed, ev="ref")]
        l2 = lg + "x" + os.path.basename(d)
        cc = dict(c, out_dir=os.path.join(work, "again_" + os.path.basename(d)), seed=int(seed), **v)
        m = recording(real, l2)(**cc)
        for _ in range(n):
            m.update()
        m.finalize()
        t.append(result(l2, cc["out_dir"], m.seed, ev="run", ctx="reported-seed-" + how, want=n,
                        wantSeed=str(seed)))
        traces.append(t)
    os.chdir("/")
    shutil.rmtree(work, ignore_errors=True)
    return traces


CTX = ["again", "yaml", "after-others", "loud0", "loud1", "loud2", "loud3", "quiet", "serial-one", "cli-one",
       "parallel-one", "serial-many", "parallel-many", "cli-parallel", "serial-last", "parallel-last",
       "serial-failing", "parallel-failing", "serial-mixed", "parallel-mixed", "job-file", "deferred",
       "old-folder"]


def run(chk):
    chk.design("Determ", "DetermSerial.cfg")
    chk.design("Determ", "DetermPar.cfg")
    models.warm(chk.scratch, full=True)
    rnd = random.Random(chk.seed)
    vars_ = [dict(stepmax=22), dict(SLR=2.0 ** -12), dict(Np_water=37, itermax=2), dict(f_bedload=0.25, alpha=0.05),
             dict(toggle_subsidence=True, subsidence_rate=1e-6, start_subsidence=0, stepmax=18), dict(coeff_U_dep_mud=0.5, Np_sed=33)]
    args = []
    for k in range(6 if chk.thorough else 2):
        for i, v in enumerate(vars_):
            real = (i + k) % 2 == 0
            ctx = list(CTX)
            rnd.shuffle(ctx)
            half = len(ctx) // 2
            for part in (ctx[:half], ctx[half:]):
                args.append(dict(work=os.path.join(chk.scratch, "c%d" % len(args)), n=4, real=real, var=v,
                                 seed=rnd.choice([0, 1, 4294967294, rnd.randrange(2 ** 32 - 1)]), ctx=part))
    args.insert(0, dict(work=os.path.join(chk.scratch, "sh"), n=3, real=True, var=vars_[1], seed=0,
                        ctx=["again", "shell"]))
    res = vlib.run_forked(scenario, args, chk.scratch, timeout=240)
    traces = []
    for a, r in zip(args, res):
        info = {k: v for k, v in a.items() if k != "work"}
        traces.append((info, r["val"] if r.get("ok") else [vlib.errev(r)]))
    args = [dict(work=os.path.join(chk.scratch, "u%d_%d" % (i, j)), n=3, real=real, how=h)
            for i, h in enumerate(["none", "null", "mat", "mat-par", "ens", "ens-par"])
            for j, real in enumerate([False, True])]
    res = vlib.run_forked(unseeded, args, chk.scratch, timeout=240)
    for a, r in zip(args, res):
        info = {k: v for k, v in a.items() if k != "work"}
        if r.get("ok"):
            traces += [(info, t) for t in r["val"]]
        else:
            traces.append((info, [vlib.errev(r)]))
    chk.validate("DetermTrace", traces)
