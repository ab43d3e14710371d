"""C14: sand fraction and active layer (spec/SandFrac*)."""
import os
import random
import shutil
import warnings

import numpy as np

import models
import terrain
import vlib
from checks.c12 import ints

S = 1e6


class Recorder:
    """Records composition around each timestep; eta0 is our own copy."""

    def hook_solve_water_and_sediment_timestep(self):
        if not getattr(self, "evs", None):
            return
        if self.plan and self.time_iter < len(self.plan):
            terrain.disturb(self, self.rs, self.plan[self.time_iter])
        self.start = np.array(self.eta, dtype=float)

    def hook_compute_sand_frac(self):
        if not getattr(self, "evs", None):
            return
        self.pre = {k: np.array(getattr(self, k), dtype=float) for k in
                    ("eta", "sand_frac", "active_layer", "Vp_dep_sand", "Vp_dep_mud")}
        self.pre["rest"] = self._rest()

    def _rest(self):
        return vlib.digest(*[np.array(getattr(self, k)) for k in
                             ("eta", "depth", "stage", "uw", "qw", "qs", "Vp_dep_sand", "Vp_dep_mud")])

    def hook_after_finalize_timestep(self):
        if not getattr(self, "evs", None):
            return
        p, thick = self.pre, self.thick
        vs, vm = p["Vp_dep_sand"], p["Vp_dep_mud"]
        recv = np.where(vs > 0, 1, np.where(np.abs(vm - 1e-6) < 1e-9, 2, (vm > 1e-6).astype(int)))
        with np.errstate(all="ignore"):
            mix = np.where(vs + vm > 0, vs / (vs + vm), 0)
        d = p["eta"] - self.start
        cut = p["eta"] - (self.start - thick)
        deep = np.where(np.abs(cut) < 1e-5, 2, (cut < 0).astype(int))
        if thick == 0:
            deep = (d < 0).astype(int)
        sf2, al2 = np.array(self.sand_frac, dtype=float), np.array(self.active_layer, dtype=float)
        self.evs.append(dict(
            ev="step", recv=ints(recv, 1), deg=ints(d < 0, 1), deep=ints(deep, 1), mix=ints(mix, S),
            sf=ints(p["sand_frac"], S), al=ints(p["active_layer"], S), sf2=ints(sf2, S), al2=ints(al2, S),
            bc=vlib.num(self.bc, S), rest=self._rest() == p["rest"],
            cont=bool((p["sand_frac"] == self.last[0]).all() and (p["active_layer"] == self.last[1]).all())))
        self.last = (sf2, al2)


class Drawn(Recorder, models.DeltaModel):
    """Deposits and erosion drawn at random instead of routed."""

    def route_water(self):
        pass

    def route_sediment(self):
        rs, sh = self.rs, self.eta.shape
        t = self.thick
        land = np.array(self.cell_type) == -2
        vs = rs.choice([0.0, 0.0, 1e-9, 1.0, 250.0], sh) * rs.choice([1.0, 0.5, 3.0], sh)
        vm = rs.choice([0.0, 0.0, 1e-8, 1.1e-6, 1.0, 250.0], sh) * rs.choice([1.0, 2.0], sh)
        d = rs.choice([0.0, 0.1, 1.0, -0.01, -0.5 * t, -0.9 * t, -1.5 * t, -3 * t - 0.2], sh)
        if rs.rand() < 0.2:
            d = np.abs(d)           # nothing eroded anywhere
        if rs.rand() < 0.2:
            vs, vm = vs * 0, vm * 0  # nothing received anywhere
        for a in (vs, vm, d):
            a[land] = 0
        self.eta[:] = self.eta + d
        self.Vp_dep_sand[:], self.Vp_dep_mud[:] = vs, vm


class Routed(Recorder, models.DeltaModel):
    pass


def play(a):
    warnings.simplefilter("ignore")
    c = a["cfg"]
    m = (Drawn if a["drawn"] else Routed)(**c)
    m.plan, m.rs = a["plan"], np.random.RandomState(a["rs"])
    m.bc = c["sand_frac_bc"]
    m.thick = c["h0"] / 2 if c.get("active_layer_thickness") is None else c["active_layer_thickness"]
    m.last = (np.array(m.sand_frac, dtype=float), np.array(m.active_layer, dtype=float))
    m.evs = [dict(ev="init", sf=ints(m.last[0], S), al=ints(m.last[1], S), bc=vlib.num(m.bc, S))]
    for _ in range(a["steps"]):
        m.update()
    m.finalize()
    shutil.rmtree(c["out_dir"], ignore_errors=True)
    return m.evs


def run(chk):
    chk.design("SandFrac", "SandFrac.cfg")
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    args = []
    for i in range(600 if chk.thorough else 80):
        cfg = models.base_cfg(os.path.join(chk.scratch, "w%d" % i), 750.0)
        cfg.update(terrain.grid_cfg(rnd))
        cfg.update(itermax=1, Np_water=15, Np_sed=rnd.choice([30, 120]), f_bedload=rnd.choice([0.5, 0.1, 0.9, 0.0, 1.0]),
                   seed=rnd.randrange(10**6), h0=rnd.choice([2.0, 3.0, 5.0]), u0=rnd.choice([1.0, 2.0]),
                   C0_percent=rnd.choice([0.1, 2.0]), sand_frac_bc=rnd.choice([0, 0.0, 0.3, 1.0, 1]),
                   coeff_U_ero_sand=rnd.choice([1.05, 0.7]), coeff_U_ero_mud=rnd.choice([1.5, 0.9]))
        if i % 2:
            cfg["active_layer_thickness"] = rnd.choice([0.05, 0.3, 1.0, 2, 0.0, None])
        if rnd.random() < 0.3:
            cfg.update(toggle_subsidence=True, start_subsidence=0, subsidence_rate=rnd.choice([1e-9, 1e-7, 1e-5]))
        drawn = i % 3 != 0
        steps = rnd.choice([4, 6]) if drawn else 3
        plan = [rnd.choice(terrain.KINDS) for _ in range(steps)] if not drawn and i % 4 else []
        args.append(dict(cfg=cfg, plan=plan, rs=rnd.randrange(10**6), steps=steps, drawn=drawn))
    res = vlib.run_forked(play, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        evs = r["val"] if r.get("ok") else [vlib.errev(r)]
        traces.append(({"cfg": repr(a["cfg"]), "plan": a["plan"], "rs": a["rs"], "drawn": a["drawn"]}, evs))
    cells = [(r, g, p) for t in traces for e in t[1] if e["ev"] == "step" for r, g, p in zip(e["recv"], e["deg"], e["deep"])]
    chk.extra["cells"] = {"received": sum(x[0] == 1 for x in cells), "eroded": sum(x == (0, 1, 0) for x in cells),
                          "eroded_deep": sum(x == (0, 1, 1) for x in cells), "kept": sum(x[:2] == (0, 0) for x in cells)}
    chk.validate("SandFracTrace", traces, parts=8)
