"""C12: flow fields (spec/Flow*)."""
import os
import random
import shutil
import warnings

import numpy as np

import models
import terrain
import vlib
from checks.c11 import tri


def ints(a, scale):
    a = np.asarray(a, dtype=float).ravel() * scale
    a = np.where(np.isfinite(a), np.clip(np.floor(a + 0.5), -1.6e9, 1.6e9), 2e9)
    return [int(x) for x in a]


H = 1e5


class Flow(models.DeltaModel):
    pockets = 0
    basin = False

    def hook_after_create_domain(self):
        """Land with a dead end: cells with a single neighbour of water."""
        if type(self).basin:
            terrain.basin(self)
        rs = np.random.RandomState(self.seed)
        for _ in range(type(self).pockets):
            r, c = rs.randint(self.L0 + 2, self.L - 3), rs.randint(4, self.W - 4)
            box = np.array(self.cell_type[r - 1:r + 2, c - 1:c + 2])
            if (box == 0).all() and (np.array(self.cell_type)[r - 2:r + 3, c - 2:c + 3] != -2).all():
                ring = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)]
                out = ring[rs.randint(len(ring))]
                for a, b in ring:
                    if (a, b) != out:
                        self.cell_type[r + a, c + b] = -2
                        self.eta[r + a, c + b] = self.stage[r + a, c + b]
                        self.depth[r + a, c + b] = 0

    def hook_solve_water_and_sediment_timestep(self):
        if self.plan and self.time_iter < len(self.plan):
            terrain.disturb(self, self.rs, self.plan[self.time_iter])

    def hook_compute_free_surface(self):
        s = {k: np.array(getattr(self, k), dtype=float) for k in
             ("eta", "stage", "depth", "uw", "ux", "uy", "qx", "qy")}
        s["walks"] = np.array(self.free_surf_walk_inds)
        s["flags"] = np.array(self.free_surf_flag)
        s["sl"], s["it"] = float(self.H_SL), int(self.time_iter)
        self.pre = s
        self.iteration = getattr(self, "iteration", -1) + 1

    def hook_init_water_iteration(self):
        self._close()

    def hook_after_route_water(self):
        self._close()
        self.iteration = -1

    def _close(self):
        s, self.pre = getattr(self, "pre", None), None
        if s is None:
            return
        c = self.cfgd
        dx, u0, h0 = c["dx"], c["u0"], c["h0"]
        n0 = len(np.asarray(self.inlet).ravel())
        Q = u0 * h0 * n0 / (2.0 * c["Np_water"])
        k = 100.0 / Q
        uw = s["uw"]
        with np.errstate(all="ignore"):
            cx = np.where(uw > 0, s["ux"] / uw, 0)
            cy = np.where(uw > 0, s["uy"] / uw, 0)
        t1, t2 = tri(uw, 0.5 * u0, False), tri(s["depth"], 0.1 * h0, True)
        shore = np.where((t1 == 1) | (t2 == 1), 1, np.where((t1 == 2) | (t2 == 2), 2, 0))
        dry = min(0.1, 0.1 * h0)
        om = c["omega_flow"] if self.iteration == 0 else 2.0 / c["itermax"]
        self.evs.append({
            "ev": "iter", "L": self.L, "W": self.W, "L0": int(self.L0), "CTR": int(self.CTR),
            "type": ints(self.cell_type, 1), "inlet": [int(x) for x in np.asarray(self.inlet).ravel()],
            "near": [int(x) for x in tri(np.abs(s["stage"] - s["sl"]), 1e-1, True).ravel()],
            "walks": [trim(w) for w in s["walks"]], "flags": [int(x) for x in s["flags"]],
            "first": s["it"] == 0, "sl": vlib.num(s["sl"], H), "eta": ints(s["eta"], H), "stage": ints(s["stage"], H),
            "hpre": ints(s["eta"] + s["depth"], H),
            "wet": [1 if x == 0 else 0 if x == 1 else 2 for x in tri(s["depth"], dry, True).ravel()],
            "shore": [int(x) for x in shore.ravel()], "uw": ints(uw, 1e6), "cx": ints(cx, 1e4), "cy": ints(cy, 1e4),
            "sdx": vlib.num(c["S0"] * dx, H), "tol": 60 if c["S0"] > 0 else 12,
            "osfc": vlib.num(c["omega_sfc"], 1000), "ns": c["Nsmooth"], "cs": vlib.num(c["Csmooth"], 1000),
            "om": vlib.num(om, 1000), "qx": ints(s["qx"], k), "qy": ints(s["qy"], k),
            "qx2": ints(self.qx, k), "qy2": ints(self.qy, k), "qw2": ints(self.qw, k), "qw0": vlib.num(u0 * h0, k),
            "stage2": ints(self.stage, H), "depth2": ints(self.depth, H),
            "etaSame": bool((s["eta"] == np.array(self.eta, dtype=float)).all()),
            "uw2": ints(self.uw, 1e4), "ux2": ints(self.ux, 1e4), "uy2": ints(self.uy, 1e4),
            "dmm": ints(self.depth, 1e3), "q4": ints(self.qw, 1e4), "cap": vlib.num(2.0 * u0, 1e4),
            "wet2": [1 if x == 0 else 0 if x == 1 else 2 for x in tri(self.depth, dry, True).ravel()],
        })


def trim(w):
    w = [int(x) for x in w]
    n = len(w)
    while n > 1 and w[n - 1] == 0:
        n -= 1
    return w[:n] + ([0] if n < len(w) else [])


def play(a):
    warnings.simplefilter("ignore")
    Flow.pockets, Flow.basin = a["pockets"], a["basin"]
    m = Flow(**a["cfg"])
    m.plan, m.rs, m.evs, m.cfgd = a["plan"], np.random.RandomState(a["rs"]), [], a["cfg"]
    for _ in range(a["steps"]):
        sl = float(m.H_SL)
        m.update()
        m.evs.append({"ev": "end", "L": m.L, "W": m.W, "inlet": [int(x) for x in np.asarray(m.inlet).ravel()],
                      "sl": vlib.num(sl, H), "eta": ints(m.eta, H), "stage": ints(m.stage, H), "depth": ints(m.depth, H),
                      "h0": vlib.num(a["cfg"]["h0"], H)})
    # flooding corrections on states of its own, in steps of 2^-10 m
    q = 1024.0
    dry = min(0.1, 0.1 * a["cfg"]["h0"])
    rs = m.rs
    for j in range(a["floods"]):
        sh = m.eta.shape
        base = rs.choice([0, 0, -3, 5])
        eta = (rs.randint(-400, 400, sh) if j % 2 else rs.choice([-300, 0, 40, 200], sh)) / q + base
        st = np.maximum(rs.randint(-200, 300, sh) / q + base, eta - (rs.rand(*sh) < .2) * 0.25)
        if j % 3 == 0:
            st = np.where(rs.rand(*sh) < .5, eta, st)
        m.eta[:], m.stage[:] = eta, st
        m.depth[:] = np.maximum(m.stage - m.eta, 0)
        s0 = np.array(m.stage, dtype=float)
        d0 = vlib.digest(np.array(m.eta), np.array(m.depth), np.array(m.qw), np.array(m.uw), np.array(m.sand_frac))
        wet = np.array(m.depth, dtype=float) > dry
        m.flooding_correction()
        m.evs.append({"ev": "flood", "L": m.L, "W": m.W, "wet": ints(wet, 1), "stage": ints(s0, q), "eta": ints(eta, q),
                      "stage2": ints(m.stage, q),
                      "restSame": d0 == vlib.digest(np.array(m.eta), np.array(m.depth), np.array(m.qw), np.array(m.uw),
                                                    np.array(m.sand_frac))})
    m.finalize()
    shutil.rmtree(a["cfg"]["out_dir"], ignore_errors=True)
    return m.evs


def run(chk):
    chk.design("Flow", "Flow.cfg")
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    args = []
    for i in range(500 if chk.thorough else 56):
        cfg = models.base_cfg(os.path.join(chk.scratch, "w%d" % i), 750.0)
        cfg.update(terrain.grid_cfg(rnd))
        cfg.update(dx=cfg["dx"], itermax=rnd.choice([1, 2, 3]), Np_water=rnd.choice([5, 8, 12]), Np_sed=rnd.choice([10, 60]),
                   seed=rnd.randrange(10**6), theta_water=rnd.choice([1.0, 1, 1.5]),
                   S0=rnd.choice([0.0, 2e-4, 8e-4, 8e-4]), h0=rnd.choice([2.0, 3.0, 5.0]), u0=rnd.choice([1.0, 1.5, 2.0]),
                   C0_percent=rnd.choice([0.1, 2.0, 10.0]), H_SL=rnd.choice([0.0, 1.5, -2.0]), SLR=rnd.choice([0.0, 1e-5, -1e-5]),
                   omega_sfc=rnd.choice([0.1, 0.5, 1.0, 0.8, 0.03]), omega_flow=rnd.choice([0.9, 0.5, 1.0]),
                   Nsmooth=rnd.choice([0, 1, 2, 3]), Csmooth=rnd.choice([0.9, 0.5, 0.0, 1.0]))
        steps = rnd.choice([2, 3])
        plan = [rnd.choice(terrain.KINDS) for _ in range(steps)] if i % 3 else []
        args.append(dict(cfg=cfg, pockets=rnd.choice([0, 0, 6]), plan=plan, rs=rnd.randrange(10**6), steps=steps, floods=4,
                         basin=i % 4 == 1))
    res = vlib.run_forked(play, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        evs = r["val"] if r.get("ok") else [vlib.errev(r)]
        traces.append(({"cfg": a["cfg"], "plan": a["plan"], "rs": a["rs"], "basin": int(a["basin"])}, evs))
    chk.extra["water_iterations"] = sum(1 for t in traces for e in t[1] if e["ev"] == "iter")
    chk.validate("FlowTrace", traces, parts=8)
