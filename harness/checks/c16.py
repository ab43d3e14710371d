"""C16: changes of boundary conditions (spec/Boundary*)."""
import os
import random
import shutil
import warnings

import numpy as np

import models
import vlib
from models import shared_tools

ARR = ("eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "sand_frac", "active_layer", "qs", "Vp_dep_sand", "Vp_dep_mud")
OPS = {
    "velocity": ("channel_flow_velocity", 10.0), "depth": ("channel_flow_depth", 10.0), "width": ("channel_width", 1.0),
    "concentration": ("influx_sediment_concentration", 1e4), "bedload": ("bedload_fraction", 1e3),
    "sealevel": ("sea_surface_mean_elevation", 1e3), "slr": ("sea_surface_elevation_change", 1e9), "timestep": ("time_step", 10.0),
}


def conf(base, c, out):
    d = dict(base)
    d.update(u0=c["u"] / 10.0, h0=c["h"] / 10.0, C0_percent=(c["C"] / 1e4) * 100, N0_meters=float(c["n"]),
             f_bedload=c["f"] / 1e3, H_SL=c["sl"] / 1e3, SLR=c["slr"] / 1e9, out_dir=out)
    return d


def obs(m, c):
    n = vlib.num
    dx = float(c["dx"])
    o = dict(
        u=n(m.channel_flow_velocity, 10), h=n(m.channel_flow_depth, 10), cpct=n(m.influx_sediment_concentration, 100),
        f=n(m.bedload_fraction, 1000), sl=n(m.sea_surface_mean_elevation, 1000), slr=n(m.sea_surface_elevation_change, 1e9),
        width=n(m.channel_width), ts=n(m.time_step, 10), umax=n(m.u_max, 10), conc=n(m.C0, 1e4), dry=n(m.dry_depth, 1e3),
        N0=int(m.N0), gamma=n(m.gamma, 1e6), ref=n(m.V0, 10), qw=n(m.qw0, 100), Qw=n(m.Qw0, 100),
        Qp=n(m.Qp_water * c["Np_water"], 100), qs=n(m.qs0, 1e6), Qs=n(m.Qs0, 1e6), vs=n(m.dVs, 100),
        vp=n(m.Vp_sed * c["Np_sed"], 100), dt=n(m.dt, 10), smooths=int(m.N_crossdiff), diff=n(m.diffusion_multiplier * dx, 1e4),
        sigma=0, sigland=True)
    if c.get("toggle_subsidence"):
        s = np.asarray(m.sigma, dtype=float)
        o["sigma"] = n(s.max() / c["subsidence_rate"], 10)
        o["sigland"] = bool((s[: int(m.L0)] == 0).all() and (np.abs(s[int(m.L0):] - s.max()) <= 1e-6 * s.max()).all())
    return o


OWN = dict(velocity="u0", depth="h0", width="N0_meters", concentration="C0_percent", bedload="f_bedload",
           sealevel="H_SL", slr="SLR")
with open(os.path.join(os.path.dirname(models.pyDeltaRCM.__file__), "default.yml")) as _f:
    PARAMS = sorted(models.yaml.safe_load(_f))


def keep(m, op):
    """What a change must leave alone: the fields, the clock, thresholds, and
    every other parameter of the configuration."""
    par = [(k, repr(getattr(m, k, None))) for k in PARAMS if k != OWN.get(op)]
    return vlib.digest(repr(par), *[np.array(getattr(m, k)) for k in ARR], np.array(m.inlet), np.array(m.cell_type),
                       np.array([m.U_dep_mud, m.U_ero_mud, m.U_ero_sand, m.theta_sand, m.theta_mud, m.L0, m.time,
                                 m.active_layer_thickness, m.omega_flow_iter], dtype=float))


class Watch(models.DeltaModel):
    """Notes what the first sand parcels put in at the inlet row."""

    def hook_topo_diffusion(self):
        self.fed = float(np.array(self.qs, dtype=float)[0].sum())
        self.dts = float(self.dt)


def step(m, cond, base, dt, nstep, out, seed):
    """One timestep, next to a new model built for the present condition."""
    ref = Watch(**conf(base, cond, out))
    for _ in range(nstep):
        ref.update()
    for k in ARR:
        getattr(ref, k)[:] = np.array(getattr(m, k))
    ref.inlet = np.array(m.inlet)
    ref.cell_type[:] = m.cell_type
    for k in ("U_dep_mud", "U_ero_mud", "U_ero_sand", "active_layer_thickness"):
        setattr(ref, k, getattr(m, k))
    ref.H_SL = m.H_SL
    ref.init_sediment_routers()
    if dt:
        ref.time_step = dt
    shared_tools.set_random_seed(seed)
    ref.update()
    shared_tools.set_random_seed(seed)
    t0 = float(m.time)
    m.update()
    same = all(np.allclose(np.array(getattr(m, k)), np.array(getattr(ref, k)), rtol=1e-4, atol=1e-5) for k in ARR)
    same = same and abs(m.H_SL - ref.H_SL) < 1e-9
    # every sand parcel feeds twice half its volume into the inlet row
    n = int(base["Np_sed"] * cond["f"] / 1e3)
    n0 = max(3, min(int(round(cond["n"] / base["dx"])), int(round(base["Width"] / base["dx"])) // 4))
    vp = 0.1 * n0**2 * cond["h"] / 10.0 * base["dx"] ** 2 / base["Np_sed"]
    want = n * vp / m.dts / base["dx"]
    rate = m.fed / want if want > 0 else 1.0 + m.fed
    used = abs((float(m.time) - t0) - m.dts) < 1e-6
    ref.finalize()
    shutil.rmtree(out, ignore_errors=True)
    # a parcel may come back to the inlet row and feed it again
    return dict(ev="step", same=bool(same), rate=vlib.num(max(min(rate, 1.0), 0) if rate < 3 else rate, 1e4), dtUsed=bool(used),
                sl=vlib.num(float(m.H_SL), 1e3))


def play(a):
    warnings.simplefilter("ignore")
    base, cond = dict(a["base"]), dict(a["c0"])
    out = a["out"]
    m = Watch(**conf(base, cond, out))
    evs = [dict(ev="new", k=a["k"], c=a["c0"], op="", warned=False, kept=True, sub=bool(base["toggle_subsidence"]), obs=obs(m, base))]
    dt, steps = None, 0
    key = dict(velocity="u", depth="h", width="n", concentration="C", bedload="f", sealevel="sl", slr="slr")
    for j, (op, v) in enumerate(a["h"]):
        if op == "step":
            cond["sl"] = float(m.H_SL) * 1e3
            evs.append(step(m, cond, base, dt, steps, os.path.join(out, "ref%d" % j), a["seed"] + j))
            steps += 1
            continue
        attr, sc = OPS[op]
        d0 = keep(m, op)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            setattr(m, attr, v / sc)
        warned = any("idth" in str(x.message) for x in w)
        if op == "timestep":
            dt = v / sc
        else:
            cond[key[op]] = v
            if op in ("velocity", "depth", "width", "concentration"):
                dt = None
        evs.append(dict(ev="set", op=op, v=v, warned=bool(warned), kept=d0 == keep(m, op), sub=bool(base["toggle_subsidence"]), obs=obs(m, base)))
    m.finalize()
    shutil.rmtree(out, ignore_errors=True)
    return evs


def run(chk):
    chk.design("Boundary", "Boundary.cfg")
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    hs = chk.simulate("BoundaryGen", "BoundaryGen.cfg", 600 if chk.thorough else 110, 9, chk.seed)
    seen, args = set(), []
    for i, s in enumerate(hs):
        p = repr((s["k"], s["c0"], s["h"][:-1]))
        if p in seen:
            continue
        seen.add(p)
        k = s["k"]
        h = list(s["h"])
        if not any(x[0] == "step" for x in h[3:]):
            h.append(("step", 0))
        h.append(("velocity", s["c0"]["u"]))
        # go back to where it started
        for op, f in (("depth", "h"), ("concentration", "C"), ("width", "n"), ("bedload", "f")):
            h.append((op, s["c0"][f]))
        base = dict(dx=float(k["dx"]), Length=500.0, Width=float(k["dx"] * k["W"]), L0_meters=100.0, hb=4.0, S0=k["S"] / 1e5,
                    alpha=k["al"] / 100.0, Np_water=rnd.choice([10, 20]), Np_sed=rnd.choice([20, 50]), itermax=rnd.choice([1, 2]),
                    seed=rnd.randrange(10**6), toggle_subsidence=rnd.random() < 0.5, subsidence_rate=2e-7, start_subsidence=rnd.choice([0, 0, 10**6]),
                    save_checkpoint=False)
        args.append(dict(base=base, k=k, c0=s["c0"], h=h, seed=rnd.randrange(10**6), out=os.path.join(chk.scratch, "w%d" % i)))
    res = vlib.run_forked(play, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        evs = r["val"] if r.get("ok") else [vlib.errev(r)]
        traces.append(({"base": a["base"], "c0": a["c0"], "h": [list(x) for x in a["h"]], "k": a["k"]}, evs))
    n = [e["ev"] for t in traces for e in t[1]]
    chk.extra["changes"], chk.extra["timesteps_compared"] = n.count("set"), n.count("step")
    chk.validate("BoundaryTrace", traces, parts=8)
