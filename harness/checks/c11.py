"""C11: walks of water parcels (spec/Walk*)."""
import os
import random
import shutil
import warnings

import numpy as np

import models
import terrain
import vlib


def tri(x, lim, below):
    """1 true, 0 false, 2 on the verge, for x < lim (below) or x >= lim."""
    d = np.asarray(x, dtype=float) - lim
    v = (d < 0) if below else (d >= 0)
    return np.where(np.abs(d) < 1e-6, 2, v.astype(int))


def flags(m):
    return np.array(m.free_surf_flag)


def observe(m):
    """Grid and walks of the water iteration that was just run."""
    L, W = m.L, m.W
    ww = np.asarray(m.water_weights, dtype=float).reshape(L * W, 9)
    ct = np.asarray(m.cell_type).ravel()
    near = tri(np.abs(m.stage - m.H_SL), 1e-1, True).ravel()
    wet = tri(m.depth, m.dry_depth, False).ravel()
    live = ct != -2
    sums = ww[live].sum(axis=1)
    g = {"ev": "grid", "L": L, "W": W, "L0": int(m.L0), "CTR": int(m.CTR), "type": [int(x) for x in ct],
         "near": [int(x) for x in near], "wet": [int(x) for x in wet],
         "inlet": [int(x) for x in np.asarray(m.inlet).ravel()],
         "stepmax": int(np.ceil(m.stepmax)),
         "sup": [[int(d) for d in np.nonzero(ww[i] > 0)[0]] for i in range(L * W)],
         "nonneg": bool((ww >= 0).all()), "sumone": bool((np.abs(sums - 1) < 1e-6).all())}
    walks = np.asarray(m.free_surf_walk_inds)
    fl = np.asarray(m.free_surf_flag)
    evs = [g]
    for p in range(walks.shape[0]):
        w = [int(x) for x in walks[p]]
        # everything after the last recorded step is unused space
        n = len(w)
        while n > 1 and w[n - 1] == 0:
            n -= 1
        w = w[:n]
        if n < g["stepmax"] + 1 and ct[w[-1]] != -1:
            w.append(0)
        evs.append({"ev": "walk", "w": w, "flag": int(fl[p])})
    return evs


class Walker(models.DeltaModel):
    def hook_solve_water_and_sediment_timestep(self):
        if self.plan and self.time_iter < len(self.plan):
            terrain.disturb(self, self.rs, self.plan[self.time_iter])
            if self.modw:
                self.mod_water_weight[:] = self.rs.choice([0.0, 0.5, 1.0, 2.0], self.eta.shape)

    def hook_compute_free_surface(self):
        self.evs.extend(observe(self))


class Basin(Walker):
    def hook_after_create_domain(self):
        terrain.basin(self)


def play(a):
    warnings.simplefilter("ignore")
    m = (Basin if a["basin"] else Walker)(**a["cfg"])
    m.plan, m.rs, m.evs, m.modw = a["plan"], np.random.RandomState(a["rs"]), [], a["modw"]
    for _ in range(a["steps"]):
        m.update()
    m.finalize()
    shutil.rmtree(a["cfg"]["out_dir"], ignore_errors=True)
    return m.evs


def run(chk):
    chk.design("Walk", "Walk.cfg")
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    args = []
    for i in range(600 if chk.thorough else 72):
        g = terrain.grid_cfg(rnd)
        cfg = models.base_cfg(os.path.join(chk.scratch, "w%d" % i), 750.0)
        cfg.update(g)
        cfg.update(itermax=rnd.choice([1, 2]), Np_water=rnd.choice([6, 10]), Np_sed=rnd.choice([10, 60]), seed=rnd.randrange(10**6),
                   theta_water=rnd.choice([0.0, 1.0, 1, 2.5]), S0=rnd.choice([0.0, 1e-4, 1e-3]),
                   h0=rnd.choice([2.0, 3.0, 5.0]), C0_percent=rnd.choice([0.1, 2.0, 10.0]),
                   H_SL=rnd.choice([0.0, 1.5, -2.0]), SLR=rnd.choice([0.0, 1e-5]), omega_sfc=rnd.choice([0.1, 0.5, 1.0]))
        if i % 6 == 1:
            cfg["stepmax"] = rnd.choice([7, 12, 20.0, 21])
        if cfg["h0"] * 9.81 > 0 and cfg["S0"] == 1e-3:
            cfg["u0"] = 2.0
        steps = rnd.choice([3, 4])
        plan = [rnd.choice(terrain.KINDS) for _ in range(steps)] if i % 4 else []
        args.append(dict(cfg=cfg, plan=plan, rs=rnd.randrange(10**6), steps=steps if plan else 8, modw=i % 8 == 5,
                         basin=i % 3 == 2))
    res = vlib.run_forked(play, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        evs = r["val"] if r.get("ok") else [vlib.errev(r)]
        traces.append(({"cfg": a["cfg"], "plan": a["plan"], "rs": a["rs"], "basin": int(a["basin"])}, evs))
    chk.extra["walks"] = sum(1 for t in traces for e in t[1] if e["ev"] == "walk")
    chk.validate("WalkTrace", traces)
