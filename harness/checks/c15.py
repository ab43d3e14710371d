"""C15: domain geometry and initial state (spec/Domain*)."""
import glob
import os
import random
import shutil
import warnings

import netCDF4
import numpy as np

import models
import vlib
from checks.c12 import ints

U = 8  # length units per metre


def play(a):
    warnings.simplefilter("ignore")
    out = []
    for c in a["cfgs"]:
        m = models.DeltaModel(**c)
        dx = c["dx"]
        con = dict(len=int(c["Length"] * U), wid=int(c["Width"] * U), dx=int(dx * U), l0=int(c["L0_meters"] * U),
                   n0=int(c["N0_meters"] * U))
        hb = c["h0"] if c.get("hb") is None else c["hb"]
        bc = c.get("sand_frac_bc", 0)
        fields = ["eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "sand_frac", "active_layer", "qs",
                  "Vp_dep_sand", "Vp_dep_mud", "cell_type", "mod_erosion", "mod_sed_weight", "mod_water_weight"]
        sh = (m.L, m.W)
        X, Y = np.asarray(m.X), np.asarray(m.Y)
        x, y = np.asarray(m.x), np.asarray(m.y)
        mesh = (X.shape == (m.L + 1, m.W + 1) and Y.shape == X.shape and x.shape == sh and y.shape == sh
                and bool((X == np.arange(m.W + 1) * dx).all()) and bool((Y.T == np.arange(m.L + 1) * dx).all())
                and bool((x == np.arange(m.W)).all()) and bool((y.T == np.arange(m.L)).all()))
        h = 1e4
        out.append(dict(
            ev="new", c=con, L=int(m.L), W=int(m.W), L0=int(m.L0), N0=int(m.N0),
            p=dict(sdx=vlib.num(c["S0"] * dx, h), hb=vlib.num(hb, h), h0=vlib.num(c["h0"], h), q0=vlib.num(c["u0"] * c["h0"], h),
                   bc=vlib.num(bc, 1e6), stepmax=int(c.get("stepmax") or 0)),
            inlet=[int(v) for v in np.asarray(m.inlet).ravel()],
            shapes=all(np.asarray(getattr(m, f)).shape == sh for f in fields),
            type=ints(m.cell_type, 1), stage=ints(m.stage, h), depth=ints(m.depth, h), eta=ints(m.eta, h),
            qx=ints(m.qx, h), qy=ints(m.qy, h), qw=ints(m.qw, h), ux=ints(m.ux, h), uy=ints(m.uy, h), uw=ints(m.uw, h),
            sf=ints(m.sand_frac, 1e6) + ints(m.active_layer, 1e6),
            xc=[vlib.num(v, U) for v in m.xc], yc=[vlib.num(v, U) for v in m.yc], mesh=bool(mesh),
            zero=not (np.asarray(m.qs).any() or np.asarray(m.Vp_dep_sand).any() or np.asarray(m.Vp_dep_mud).any()),
            clock=bool(m.time == 0 and m.time_iter == 0 and m.sea_surface_mean_elevation == c.get("H_SL", 0)),
            stepmax=int(m.stepmax)))
        m.finalize()
        for f in glob.glob(os.path.join(c["out_dir"], "*.nc")):
            with netCDF4.Dataset(f) as d:
                nx, ny = ("length", "width") if not c.get("legacy_netcdf") else ("x", "y")
                if c.get("legacy_netcdf"):
                    fx, fy = np.asarray(d["x"])[:, 0], np.asarray(d["y"])[0, :]
                    if np.asarray(d["x"]).ndim == 2:
                        fx, fy = np.asarray(d["y"])[:, 0], np.asarray(d["x"])[0, :]
                else:
                    fx, fy = np.asarray(d[d["eta"].dimensions[1]]), np.asarray(d[d["eta"].dimensions[2]])
                md = d["meta"] if "meta" in d.groups else None
                out.append(dict(ev="file", c=con, nx=int(d["eta"].shape[1]), ny=int(d["eta"].shape[2]),
                                fx=[vlib.num(v, U) for v in fx], fy=[vlib.num(v, U) for v in fy],
                                L0=vlib.num(float(md["L0"][...])), N0=vlib.num(float(md["N0"][...])),
                                CTR=vlib.num(float(md["CTR"][...]))))
        shutil.rmtree(c["out_dir"], ignore_errors=True)
    return out


def run(chk):
    chk.design("Domain", "Domain.cfg")
    models.warm(chk.scratch, full=False)
    rnd = random.Random(chk.seed)
    args = []
    n = 0
    for i in range(400 if chk.thorough else 60):
        cfgs = []
        for _ in range(6):
            dx = rnd.choice([10.0, 25.0, 50.0, 37.5, 1.0, 100.0, 12.5, 8.0])
            L = rnd.choice([6, 7, 8, 9, 10, 11, 12, 13, 16, 21, 30, 45])
            W = rnd.choice([4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 22, 23, 34, 61])
            frac = lambda: rnd.choice([0, 0, 0, 0.5, -0.5, 0.25, -0.25, 0.125])
            u0, h0 = rnd.choice([0.5, 1.0, 1.5, 2.0]), rnd.choice([0.5, 2.0, 5.0, 8.0])
            c = dict(dx=dx, Length=(L + frac()) * dx, Width=(W + frac()) * dx,
                     L0_meters=max(0.125, (rnd.choice([0.25, 1, 2, 3, 5, 8]) + frac()) * dx),
                     N0_meters=max(0.125, (rnd.choice([0.5, 1, 2, 3, 4, 5, 6, 7, 9, 15]) + frac()) * dx),
                     S0=rnd.choice([0.0, 0.00025, 0.0015]), u0=u0, h0=h0, C0_percent=0.5, itermax=1, Np_water=5, Np_sed=5,
                     H_SL=rnd.choice([0.0, 2.0, -1.0]), sand_frac_bc=rnd.choice([0, 0.4, 1.0]), seed=4,
                     out_dir=os.path.join(chk.scratch, "w%d" % n), save_checkpoint=False)
            if rnd.random() < 0.5:
                c["hb"] = rnd.choice([1.0, 3, 10.0, None, 0, 0.0])
            if rnd.random() < 0.3:
                c["stepmax"] = rnd.choice([10, 77, 500])
            if rnd.random() < 0.2:
                c.update(save_eta_grids=True)
            # the model does not take a weighting coefficient over one
            c["S0"] = 0.0 if 9.81 * c["S0"] * dx / u0**2 >= 1 else c["S0"]
            n += 1
            cfgs.append(c)
        args.append(dict(cfgs=cfgs))
    res = vlib.run_forked(play, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        evs = r["val"] if r.get("ok") else [vlib.errev(r)]
        traces.append(({"cfgs": repr(a["cfgs"])}, evs))
    chk.validate("DomainTrace", traces, parts=8)
