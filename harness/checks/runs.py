"""Shared by C01, C02 and C03: behaviours of spec/RunGen replayed into the
real code, and the recordings checked against spec/RunTrace."""
import json
import os
import re

import models
import runlib
import vlib


def behaviours(chk, num, seed, cfg="RunGen.cfg"):
    """Distinct behaviours of the specification, by TLC simulation."""
    r = vlib.run_tlc(chk.scratch, "RunGen", cfg, workers=1,
                     extra=["-simulate", "num=%d" % num, "-depth", "40", "-seed", str(seed)])
    out = []
    for line in r.out.splitlines():
        m = re.match(r'"SCN (.*)"$', line.strip())
        if m:
            d = json.loads(m.group(1).replace('\\"', '"'))
            if d not in out:
                out.append(d)
    if not out:
        raise vlib.MachineryError("no behaviours generated:\n" + r.out[-2000:])
    return out


OPTS = [
    dict(save_eta_grids=True),
    dict(save_eta_grids=True, save_sandfrac_grids=True, save_velocity_grids=True,
         save_discharge_components=True),
    dict(save_metadata=False, save_depth_grids=True, save_stage_grids=True),
    dict(save_eta_grids=True, legacy_netcdf=True, save_sedflux_grids=True,
         save_velocity_components=True, SLR=0.001),
    dict(save_discharge_grids=True, toggle_subsidence=True, subsidence_rate=0.0001,
         start_subsidence=1000, SLR=2.0 ** -12),
    dict(save_eta_grids=False),
]


def scenarios(chk, num, seed, n_real):
    """Turn abstract behaviours into concrete configurations and histories."""
    bs = behaviours(chk, num, seed)
    # prefer behaviours with resumption in them, keep a few without
    bs.sort(key=lambda b: -sum(x == "r" for x in b["h"]))
    rich = [b for b in bs if "r" in b["h"]]
    plain = [b for b in bs if "r" not in b["h"]]
    bs = rich[: num * 3 // 4] + plain[: max(4, num // 6)]
    dts = [750.0, 187.5, 300.0, 1500.0, 500.0, 937.5]
    args = []
    for i, b in enumerate(bs):
        c = b["c"]
        real = i % 3 == 0 and i // 3 < n_real
        dt = dts[i % len(dts)]
        save = int(c["save"] * dt / c["dt"]) + (1 if i % 7 == 3 else 0)
        ck = int(c["ck"] * dt / c["dt"]) + (1 if i % 11 == 5 and c["ck"] else 0)
        o = dict(OPTS[i % (len(OPTS) - 1)])
        if i % 2:  # a thin active layer, so that it and the surface differ
            o.update(active_layer_thickness=0.02, sand_frac_bc=0.3)
        if i % 3 == 1:
            o.update(SLR=(1.3e-5 if i % 4 < 2 else -1.1e-5), H_SL=(0.3 if i % 2 else -0.4))
        if not c["nc"]:
            o = dict(save_metadata=False)
        cfg = models.base_cfg("?", dt=dt, save_dt=save, checkpoint_dt=ck,
                              save_checkpoint=c["ckOn"], seed=10 + i % 5, **o)
        if i % 4 == 1 and c["ck"] != 0:
            cfg["checkpoint_dt"] = None  # by default the saving interval
        cfg["_nc"] = c["nc"]
        args.append(dict(work=os.path.join(chk.scratch, "s%d" % i), hist=b["h"], real=real,
                         dt=dt, cfg=cfg, variant=i, custom=c["nc"] and i % 3 == 2,
                         switch=(c["sw"], round(2 * c["dt2"] * dt / c["dt"]) / 2)))
    return args


def newfile_args(chk, n):
    out = []
    for i in range(n):
        dt = [750.0, 187.5, 500.0][i % 3]
        cfg = models.base_cfg("?", dt=dt, save_dt=int(dt * (1 + i % 3)), save_checkpoint=True,
                              checkpoint_dt=int(dt), active_layer_thickness=0.02,
                              sand_frac_bc=0.3, **OPTS[(i + 1) % 5])
        out.append(dict(work=os.path.join(chk.scratch, "n%d" % i), real=i % 4 == 3, dt=dt, cfg=cfg,
                        n1=2 + i % 3, n2=4, elsewhere=bool(i % 2)))
    return out


def odd_args(chk, n):
    """Parameters whose timesteps and clock no short binary fraction holds."""
    out = []
    for i in range(n):
        o = dict(OPTS[(i + 3) % 5], u0=[1.13, 0.77, 1.9][i % 3], C0_percent=[0.3, 0.17, 1.1, 0.7][i % 4],
                 h0=[3.3, 5.1][i % 2], SLR=3.7e-9 * (-1) ** (i // 2), save_dt=[9871, 1, 31000, 0][i % 4])
        cfg = models.base_cfg("?", save_checkpoint=True, checkpoint_dt=1, seed=4 + i, **o)
        out.append(dict(work=os.path.join(chk.scratch, "q%d" % i), real=i % 4 == 3, cfg=cfg,
                        parts=[[3, 2, 4], [1, 5, 3], [4, 1, 1, 3]][i % 3]))
    return out


def sweep_args(chk, deep):
    """Every point between two file system operations: while a checkpoint is
    written, and while a run is resumed."""
    out = []
    for n in range(1, 11 if deep else 7):
        for k, side in enumerate("ba"):
            for j, h in enumerate([["b"] + ["u"] * (1 + n % 5) + ["x:writing", "r", "u", "u"],
                                   ["b", "u", "u", "x:idle", "x:idle", "r", "u", "u"]]):
                dt = [750.0, 300.0][n % 2]
                cfg = models.base_cfg("?", dt=dt, save_dt=int(dt), save_checkpoint=True,
                                      checkpoint_dt=int(dt), seed=4, **OPTS[(n + k) % 4])
                cfg["_nc"] = True
                out.append(dict(work=os.path.join(chk.scratch, "w%d%s%d" % (n, side, j)), hist=h,
                                real=False, dt=dt, cfg=cfg, kill="fs=%d%s" % (n, side), switch=(99, dt)))
    # a long saving interval, which is the interval of the checkpoints by default
    for i in range(2):
        cfg = models.base_cfg("?", dt=15000.0, save_dt=[135000, 165001][i], save_checkpoint=True,
                              seed=5, save_eta_grids=True)
        cfg["_nc"] = True
        out.append(dict(work=os.path.join(chk.scratch, "l%d" % i), real=False, dt=15000.0, cfg=cfg,
                        hist=["b"] + ["u"] * (13 + 9 * i) + ["x:idle", "r"] + ["u"] * 13, switch=(99, 15000.0)))
    return out


def jobs_args(chk, n):
    out = []
    for i in range(n):
        dt = [750.0, 300.0][i % 2]
        cfg = models.base_cfg("?", dt=dt, save_dt=int(dt * (1 + i % 2)), save_checkpoint=True,
                              checkpoint_dt=int(dt), **OPTS[i % 2])
        out.append(dict(work=os.path.join(chk.scratch, "j%d" % i), real=i % 2 == 1, dt=dt, cfg=cfg,
                        n1=1 + i % 3, n2=2 + i % 2, seeds=[4, 9, 0][: 2 + i % 2], par=[None, 2, None, None, 3][i % 5],
                        via=["py", "cli"][i % 2]))
    return out


def replay_jobs(chk, args):
    res = vlib.run_forked(runlib.scenario_jobs, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        info = {k: v for k, v in a.items() if k not in ("work", "cfg")}
        if r.get("ok"):
            traces += [(dict(info, cfg=c, yaml=a["cfg"]), evs) for c, evs in r["val"]]
        else:
            traces.append((dict(info, cfg={"dt": 1}, yaml=a["cfg"]), [vlib.errev(r)]))
    return traces


def replay(chk, args, fn=runlib.scenario):
    res = vlib.run_forked(fn, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        info = {k: v for k, v in a.items() if k != "work"}
        if r.get("ok"):
            scfg, evs = r["val"]
            traces.append((dict(info, cfg=scfg, yaml=a["cfg"]), evs))
        else:
            traces.append((dict(info, cfg=None, yaml=a["cfg"]), [vlib.errev(r)]))
    d = next((t[0]["cfg"] for t in traces if t[0]["cfg"]), None)
    for t in traces:
        if t[0]["cfg"] is None:
            t[0]["cfg"] = d or {"dt": 1}
    return traces
