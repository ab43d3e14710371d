"""C02: the output file and the figures (spec/Output*, spec/Run*)."""
import json
import os
import re
import shutil

import numpy as np

import models
import vlib
from checks import runs
from models import FastModel, DeltaModel, TICK, exact
from vlib import digest

FIELDS = ["eta", "stage", "depth", "qw", "uw", "qs", "sand_frac", "qx", "qy", "ux", "uy",
          "active_layer", "H_SL", "f_bedload", "C0_percent", "u0", "my_scalar", "time"]
FIXED = {"x": "f4", "y": "f4", "xc": "f4", "yc": "f4", "L0": "i8", "N0": "i8", "CTR": "i8",
         "dx": "f4", "h0": "f4", "hb": "f4", "cell_type": "i8", "start_subsidence": "i8",
         "sigma": "f4", "Np_water": "i8"}


def dig(x, t):
    return digest(np.ascontiguousarray(np.asarray(x).astype(t)))


def observe(m, out_dir, drawn, ex=lambda v: exact(v, TICK)):
    e = {"ncHas": False, "ncOK": True, "nrec": 0, "times": [], "vars": {}, "attrs": True}
    e["mem"] = {f: dig(getattr(m, f), "f4") for f in FIELDS if hasattr(m, f)}
    e["fix"] = {f: dig(getattr(m, f), t) for f, t in FIXED.items() if hasattr(m, f)}
    e["sd"] = ex(m.save_time_since_data)
    e["si"] = int(m.save_iter)
    p = os.path.join(out_dir, models.NC)
    if os.path.exists(p):
        e["ncHas"] = True
        try:
            cp = out_dir + ".copy.nc"  # as another process finds it on disk
            shutil.copyfile(p, cp)
            ds = models.netCDF4.Dataset(cp)
            ds.set_auto_mask(False)
            e["attrs"] = all(a in ds.ncattrs() for a in ("description", "history", "source"))
            tdim = ds.variables["time"].dimensions[0]
            e["nrec"] = len(ds.dimensions[tdim])
            e["times"] = [ex(t) for t in ds.variables["time"][:]]
            for gn, g in [("", ds)] + [(n + "/", ds.groups[n]) for n in ds.groups]:
                for vn, v in g.variables.items():
                    d = {"units": str(getattr(v, "units", "")), "type": str(v.dtype),
                         "dims": list(v.dimensions), "recs": [], "val": ""}
                    a = np.array(v[...])
                    if v.dimensions and v.dimensions[0] == tdim:
                        d["recs"] = [dig(a[i], a.dtype) for i in range(a.shape[0])]
                    else:
                        d["val"] = dig(a, a.dtype)
                    e["vars"][gn + vn] = d
            ds.close()
            os.remove(cp)
        except Exception:
            e["ncOK"] = False
    e["figs"] = sorted(f for f in os.listdir(out_dir) if f.endswith(".png"))
    e["drawn"] = list(drawn)
    drawn.clear()
    return e


def scenario(a):
    import matplotlib
    matplotlib.use("agg")
    from matplotlib.axes import Axes
    from matplotlib.figure import Figure
    c, work = a["c"], a["work"]
    os.makedirs(work)
    out = os.path.join(work, "out")
    drawn, last = [], [""]
    orig = {"pcolormesh": Axes.pcolormesh, "imshow": Axes.imshow, "savefig": Figure.savefig}

    def pcolormesh(self, *args, **kw):
        last[0] = last[0] or dig(args[-1], "f4")  # the color bar comes later
        return orig["pcolormesh"](self, *args, **kw)

    def imshow(self, X, *args, **kw):
        last[0] = last[0] or dig(X, "f4")
        return orig["imshow"](self, X, *args, **kw)

    def savefig(self, fname, *args, **kw):
        if os.path.dirname(os.path.abspath(str(fname))) == os.path.abspath(out):
            drawn.append({"file": os.path.basename(str(fname)), "dig": last[0]})
            last[0] = ""
        if a["realfig"]:
            return orig["savefig"](self, fname, *args, **kw)
        with open(fname, "w"):
            pass

    Axes.pcolormesh, Axes.imshow, Figure.savefig = pcolormesh, imshow, savefig
    base = DeltaModel if a["real"] else FastModel

    class M(base):
        my_scalar = 1.5

        def hook_init_output_file(self):
            if c["custom"]:
                co = self._netcdf_coords
                self._save_fig_list["mylayer"] = ["active_layer"]
                self._save_var_list["actlay"] = ["active_layer", "fraction", "f4", co]
                self._save_var_list["meta"]["water_parcels"] = ["Np_water", "parcels", "i8", ()]
                self._save_var_list["meta"]["my_scalar"] = [None, "furlongs", "f4", (co[0])]

        def hook_after_finalize_timestep(self):
            self.my_scalar = self.my_scalar * 1.25 + 1

    dt = a["dt"]
    odd = a.get("odd")
    if odd:  # times that no binary fraction holds: thousandths, with a tolerance
        ex, scale = (lambda v: vlib.num(v, 1000)), 1000
    else:
        ex, scale = (lambda v: exact(v, TICK)), TICK
    iv = lambda k: max(1, int(k * dt / c["dt"]))  # noqa
    kw = models.base_cfg(out, dt=dt, save_dt=iv(c["save"]), legacy_netcdf=c["legacy"],
                         toggle_subsidence=c["sub"], subsidence_rate=2.0 ** -20, start_subsidence=600,
                         save_figs_sequential=c["seqfig"], SLR=2.0 ** -18, seed=a["seed"],
                         f_bedload=0.25, hb=3.5)
    if odd:
        kw.update(odd)
    for k in c["on"]:
        kw[k] = True
    evs = []
    m = None
    dt0 = 0
    for h in a["h"]:
        if h == "b":
            m = M(**kw)
            dt0 = ex(m.time_step)
            evs.append(dict(observe(m, out, drawn, ex), ev="boot"))
        elif h == "d":
            m = M(defer_output=True, **kw)
            evs.append(dict(observe(m, out, drawn, ex), ev="defer"))
        elif h == "i":
            m.hook_init_output_file()
            m.init_output_file()
            m.output_data()
            m.output_checkpoint()
            evs.append(dict(observe(m, out, drawn, ex), ev="late"))
        elif h == "u":
            m.update()
            evs.append(dict(observe(m, out, drawn, ex), ev="update"))
        elif h[0] == "s":
            m.save_dt = iv(int(h[1:]))
            evs.append({"ev": "save", "save": int(m.save_dt * scale)})
        elif h[0] == "t":
            m.time_step = round(2 * int(h[1:]) * dt / c["dt"]) / 2
            evs.append({"ev": "dt", "dt": ex(m.time_step)})
        elif h[0] == "v":  # the conditions at the inlet are changed
            if h == "v:u":
                m.channel_flow_velocity = m.channel_flow_velocity * 1.07
            elif h == "v:c":
                m.influx_sediment_concentration = m.C0_percent * 0.93 / 100
            elif h == "v:b":
                m.bedload_fraction = m.bedload_fraction * 0.81
            elif h == "v:s":
                m.sea_surface_mean_elevation = m.sea_surface_mean_elevation + 0.0371
            evs.append({"ev": "dt", "dt": ex(m.time_step)})
        elif h[0] == "g":
            v = not getattr(m, h[1:])
            setattr(m, h[1:], v)
            evs.append({"ev": "toggle", "opt": h[1:], "val": v})
    if m is not None and "d" != a["h"][-1]:
        m.finalize()
        evs.append(dict(observe(m, out, drawn, ex), ev="final"))
    shutil.rmtree(work, ignore_errors=True)
    return {"on": sorted(c["on"]), "legacy": c["legacy"], "custom": c["custom"], "sub": c["sub"],
            "seqfig": c["seqfig"], "dt": dt0 if odd else exact(dt, TICK),
            "save": int(kw["save_dt"] * scale), "tol": 60 if odd else 0}, evs


def run(chk):
    chk.design("Output", "Output.cfg")
    models.warm(chk.scratch, full=True)
    n = 300 if chk.thorough else 56
    bs = []
    r = vlib.run_tlc(chk.scratch, "OutputGen", "OutputGen.cfg", workers=1,
                     extra=["-simulate", "num=%d" % n, "-depth", "11", "-seed", str(chk.seed)])
    for line in r.out.splitlines():
        mt = re.match(r'"SCN (.*)"$', line.strip())
        if mt:
            bs.append(json.loads(mt.group(1).replace('\\"', '"')))
    # every option at least once on its own and all of them together
    grids = ["save_%s_grids" % x for x in
             ("eta", "stage", "depth", "discharge", "velocity", "sedflux", "sandfrac")]
    grids += ["save_discharge_components", "save_velocity_components"]
    figs = ["save_%s_figs" % x for x in
            ("eta", "stage", "depth", "discharge", "velocity", "sedflux", "sandfrac")]
    base = dict(legacy=False, custom=False, sub=False, seqfig=True, dt=2, save=3)
    for leg in (False, True):
        bs.append({"c": dict(base, on=grids, legacy=leg), "h": ["b"] + ["u"] * 6})
    for i, g in enumerate(grids):
        bs.append({"c": dict(base, on=[g], legacy=bool(i % 2)), "h": ["b", "u", "u", "u"]})
    for i, g in enumerate(grids):  # switched off, or on, before there is a file
        both = ["save_eta_grids" if g != "save_eta_grids" else "save_stage_grids"]
        bs.append({"c": dict(base, on=both + ([g] if i % 2 else []), legacy=not i % 2),
                   "h": ["d", "g" + g] + (["g" + g] if i % 3 == 0 and i % 2 == 0 else []) + ["i", "u", "t1", "u", "u", "u"]})
        if g.endswith("components"):
            bs.append({"c": dict(base, on=both + [g]), "h": ["d", "g" + g, "i", "u", "u"]})
    for sq in (False, True):
        bs.append({"c": dict(base, on=figs, seqfig=sq), "h": ["b", "u", "u", "u"]})
    bs.append({"c": dict(base, on=["save_metadata"], custom=True), "h": ["b", "u", "u", "u"]})
    args = []
    for i, b in enumerate(bs):
        args.append(dict(work=os.path.join(chk.scratch, "o%d" % i), c=b["c"], h=b["h"],
                         real=i % 4 == 0, realfig=i % 16 == 1, dt=[750.0, 300.0, 1500.0, 187.5][i % 4],
                         seed=20 + i % 7))
    for i in range(24 if chk.thorough else 8):
        h = ["b", "u", "u"]
        for k in range(3):
            h += ["v:" + "ucbs"[(i + k * (1 + i // 4)) % 4], "u", "u"][: 2 + (i + k) % 2]
        h += ["u", "u"]
        odd = dict(u0=[1.13, 0.77, 1.9][i % 3], C0_percent=[0.3, 0.17, 1.1, 0.7][i % 4],
                   h0=[3.3, 5.1][i % 2], save_dt=[1, 1, 9871][i % 3],
                   Length=[600.0, 618.0, 583.0][i % 3], Width=[1017.0, 1000.0, 983.0][i % 3])
        args.append(dict(work=os.path.join(chk.scratch, "v%d" % i), h=h, real=i % 4 == 3, realfig=False,
                         c=dict(base, on=["save_eta_grids", "save_metadata"], legacy=bool(i % 2),
                                custom=i % 3 == 0), dt=750.0, seed=3 + i, odd=odd))
    res = vlib.run_forked(scenario, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        info = {k: v for k, v in a.items() if k != "work"}
        if r.get("ok"):
            cfg, evs = r["val"]
        else:
            c = a["c"]
            cfg = {"on": sorted(c["on"]), "legacy": c["legacy"], "custom": c["custom"],
                   "sub": c["sub"], "seqfig": c["seqfig"], "dt": 1, "save": 1, "tol": 0}
            evs = [vlib.errev(r)]
        traces.append((dict(info, cfg=cfg), evs))
    chk.validate("OutputTrace", traces)
    # the schedule over histories with crashes and resumption
    args = runs.scenarios(chk, 120 if chk.thorough else 24, chk.seed + 2, n_real=0)
    chk.validate("RunTrace", runs.replay(chk, args))
