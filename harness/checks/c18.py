"""C18: where parcels go (spec/Weights*)."""
import os
import random
import shutil
import warnings

import numpy as np

import models
import vlib

DEPTHS = {1: [1, 4, 9, 16], 2: range(1, 9), 3: [1, 4, 9], 4: range(1, 9), 6: [1, 2, 3]}
MODS = {1: [1, 4], 2: [1, 2], 3: [1, 4], 4: [1, 2], 6: [1, 2]}
DU, SU, QU = 0.25, 0.05, 0.125   # units of depth, stage, discharge


class Way(models.DeltaModel):
    wts = None

    def get_inlet_weights_water(self, **kw):
        return super().get_inlet_weights_water(**kw) if self.wts is None else np.array(self.wts, dtype=float)

    def get_inlet_weights_sediment(self, **kw):
        return super().get_inlet_weights_sediment(**kw) if self.wts is None else np.array(self.wts, dtype=float)


def state(m, rs, th2, kind, slack=False):
    """Give the model a state in whole units; returns the event."""
    L, W = m.eta.shape
    dp = rs.choice(list(DEPTHS[th2]), (L, W))
    md = rs.choice(MODS[th2], (L, W)) if rs.rand() < .6 else np.ones((L, W), int)
    if rs.rand() < .3:
        md[rs.rand(L, W) < .08] = 0
    dry = rs.rand(L, W) < rs.choice([0.0, 0.1, 0.3])
    ty = np.array(m.cell_type)
    if rs.rand() < .5:
        x = rs.rand(L, W) < .06
        x[0] = False
        ty[x & (ty >= 0)] = -2
    inlet = [int(i) for i in np.asarray(m.inlet).ravel()]
    dry[0, inlet] = False
    dry[:2, inlet[len(inlet) // 2]] = False  # somewhere to go
    ty[1, inlet[len(inlet) // 2]] = 1
    st = rs.randint(0, 21, (L, W)) if rs.rand() < .8 else rs.choice([5, 6], (L, W))
    qx, qy = rs.randint(-3, 8, (L, W)), rs.randint(-6, 7, (L, W))
    zero = rs.rand(L, W) < rs.choice([0, .2])
    qx[zero], qy[zero] = 0, 0
    qx[0] = np.maximum(qx[0], 1)
    qy[0] = np.clip(qy[0], -qx[0], qx[0])
    if slack:  # no discharge where sediment starts
        qx[0], qy[0] = 0, 0
    dp[dry] = 0
    depth = dp * DU
    depth[dry] = (rs.choice([0.0, 0.04], (L, W)) if kind == "water" else np.full((L, W), 0.04))[dry]
    m.cell_type[:] = ty
    m.stage[:] = st * SU
    m.depth[:] = depth
    m.eta[:] = st * SU - depth
    m.qx[:], m.qy[:] = qx * QU, qy * QU
    m.qw[:] = np.sqrt(m.qx**2 + m.qy**2)
    (m.mod_water_weight if kind == "water" else m.mod_sed_weight)[:] = md
    f = lambda a: [int(v) for v in np.asarray(a).ravel()]  # noqa
    return {"ev": "grid", "L": L, "W": W, "st": f(st), "dp": f(dp), "md": f(md), "wet": f(~dry), "ty": f(ty),
            "qx": f(qx), "qy": f(qy), "th2": th2, "gam": 0}, inlet


def pick(rs, n):
    """Weights of the inlet cells: even, uneven, some zero, or one only."""
    k = rs.randint(4)
    if k == 0:
        return None, [1] * n
    w = [int(x) for x in rs.randint(1, 6, n)]
    if k == 1:
        w[rs.randint(n)] = 0
    if k == 2:
        w = [0] * n
        w[n // 2] = 3
    return w, w


def water(a, rs, evs):
    m = Way(**a["cfg"])
    rest = {k: np.array(getattr(m, k)) for k in ("cell_type",)}
    for _ in range(a["states"]):
        m.cell_type[:] = rest["cell_type"]
        g, inlet = state(m, rs, a["th2"], "water")
        g["gam"] = a["gam"]
        L, W, L0 = m.L, m.W, int(m.L0)
        ways = lambda i: any(  # noqa
            0 <= r < L and 0 <= c < W and (r, c) != divmod(i, W) and m.cell_type[r, c] != -2
            for r in range(i // W - 1, i // W + 2) for c in range(i % W - 1, i % W + 2))
        if not all(ways(i) for i in range(L * W) if m.cell_type.flat[i] != -2):
            continue
        m.get_water_weight_array()
        w = np.array(m.water_weights, dtype=float).reshape(-1, 9)
        cells = [i for i in range(L * W) if m.cell_type.flat[i] not in (-2, -1)]
        rs.shuffle(cells)
        evs.append(g)
        evs.append({"ev": "array", "cells": [{"i": int(i), "p": [vlib.num(x, 1e4) for x in w[i]]} for i in cells[:40]]})
        m.wts, wts = pick(rs, len(inlet))
        m.init_water_iteration()
        m.run_water_iteration()
        walks = np.array(m.free_surf_walk_inds)
        n = walks.shape[0]
        evs.append({"ev": "start", "w": wts, "n": n,
                    "k": [int((walks[:, 0] == i).sum()) for i in inlet]})
        K = {}
        alive = np.ones(n, bool)
        for s in range(walks.shape[1] - 1):
            u, v = walks[:, s], walks[:, s + 1]
            alive = alive & (u > 0) & (u // W < L0) & (v > 0)
            for i, j in zip(u[alive], v[alive]):
                d = (int(j) // W - int(i) // W + 1) * 3 + int(j) % W - int(i) % W + 1
                if 0 <= d < 9:
                    K.setdefault(int(i), [0] * 9)[d] += 1
        evs.append({"ev": "walk", "cells": [{"i": i, "n": sum(k), "k": k} for i, k in sorted(K.items())
                                            if sum(k) >= 30]})
        m.mod_water_weight[:] = 1
    m.finalize()


def sediment(a, rs, evs):
    c, kind = a["cfg"], a["kind"]
    m = Way(**c)
    ct = np.array(m.cell_type)
    n0 = len(np.asarray(m.inlet).ravel())
    for _ in range(a["states"]):
        m.cell_type[:] = ct
        g, inlet = state(m, rs, a["th2"], "sed", a["slack"])
        m.init_sediment_iteration()
        m.wts, wts = pick(rs, n0)
        if a["slack"]:
            wts = [0] * n0
            wts[n0 // 2] = 1
            m.wts = wts
        m.uw[:] = 2 * c["u0"] if kind == "sand" else 0
        m.ux[:], m.uy[:] = 0, 0
        m.qw[:] = 1e4 if kind == "sand" else 0
        if kind == "sand":
            m.route_all_sand_parcels()
            k = np.array(m.qs, dtype=float) / (c["u0"] * c["h0"] * c["C0_percent"] / 100.0 * n0 / (2.0 * c["Np_sed"]))
        else:
            m.route_all_mud_parcels()
            k = np.array(m.Vp_dep_mud, dtype=float) / (c["sed_lag"] * 0.1 * n0**2 * c["h0"] * c["dx"]**2 / c["Np_sed"])
        evs.append(g)
        evs.append({"ev": "sed", "kind": kind, "steps": c["stepmax"], "n": c["Np_sed"], "w": wts, "inlet": inlet,
                    "k": [vlib.num(x, 1) for x in k.ravel()]})
        m.mod_sed_weight[:] = 1
    m.finalize()


def fill(a, rs, evs):
    """Many parcels fill shallow cells; deep ones are always near."""
    c, kind = a["cfg"], a["kind"][4:]
    m = Way(**c)
    L, W = m.eta.shape
    dry = min(0.1, 0.1 * c["h0"])
    for _ in range(a["states"]):
        m.init_sediment_iteration()
        m.wts = None
        depth = rs.randint(3, 14, (L, W)) * 0.05
        depth[rs.rand(L, W) < .2] = rs.choice([0.25, 0.5, 0.9]) * dry
        off = rs.randint(3)
        depth[:, off::3] = 3000.0
        m.stage[:] = 2.0
        m.depth[:] = depth
        m.eta[:] = m.stage - m.depth
        m.qx[:], m.qy[:], m.qw[:] = 1.0, 0.0, 0.0
        m.uw[:], m.ux[:], m.uy[:] = 0, 0, 0
        u = 2.0 if kind == "sand" else 0.6  # (nothing stays in the deep)
        m.uw[:, off::3], m.qw[:, off::3] = u, 3000.0 * u
        d0 = np.array(m.depth, dtype=float)
        m.cell_type[:] = np.where(np.arange(L)[:, None] == L - 1, -1, 0)
        (m.route_all_sand_parcels if kind == "sand" else m.route_all_mud_parcels)()
        f = lambda x: [vlib.num(v, 1e4) for v in np.asarray(x, dtype=float).ravel()]  # noqa
        shal = [i for i in range(W, L * W) if (i % W) % 3 != off]
        evs.append({"ev": "fill", "dry": vlib.num(dry, 1e4), "d0": f(d0.ravel()[shal]),
                    "d1": f(np.array(m.depth, dtype=float).ravel()[shal])})
    m.finalize()


def play(a):
    warnings.simplefilter("ignore")
    evs = []
    (water if a["kind"] == "water" else fill if a["kind"][:4] == "fill" else sediment)(a, np.random.RandomState(a["rs"]), evs)
    shutil.rmtree(a["cfg"]["out_dir"], ignore_errors=True)
    return evs


def run(chk):
    chk.design("Weights", "Weights.cfg")
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    args = []
    for i in range(320 if chk.thorough else 40):
        kind = ["water", "sand", "water", "mud"][i % 4]
        dx, u0 = rnd.choice([25.0, 50.0, 80.0]), rnd.choice([0.5, 1.0, 2.0])
        cfg = models.base_cfg(os.path.join(chk.scratch, "y%d" % i), 750.0)
        L, W = rnd.randint(9, 12), rnd.randint(16, 22)
        gam = rnd.choice([0, 50, 150, 500, 900, 990])
        cfg.update(dx=dx, Length=L * dx, Width=W * dx, L0_meters=4 * dx, N0_meters=rnd.choice([3, 4, 5]) * dx,
                   u0=u0, h0=rnd.choice([1.0, 3.0, 5.0]), S0=gam / 1000.0 * u0**2 / (9.81 * dx),
                   seed=rnd.randrange(10**6), save_metadata=False)
        if kind == "water":
            th2 = rnd.choice([1, 2, 2, 3, 4])
            cfg.update(theta_water=th2 / 2.0, Np_water=8000, Np_sed=10, stepmax=4)
        else:
            # (in turn, so that both kinds see each factor make a difference)
            tw, co, th2 = [(1.5, 2.0, 6), (2.0, 0.5, 2), (0.5, 2.0, 2), (1.0, 3.0, 6), (0.5, 1.0, 1),
                           (1.5, 1.0, 3), (1.0, 2.0, 4), (1.0, 1.0, 2), (1.0, 0.5, 1)][(i // 8 + chk.seed - 1) % 9]
            cfg.update(theta_water=tw, Np_water=10, Np_sed=6000, stepmax=rnd.choice([1, 2]),
                       f_bedload=1.0 if kind == "sand" else 0.0, coeff_U_ero_sand=50.0, sed_lag=1e-5)
            cfg["coeff_theta_" + kind] = co
            cfg["coeff_theta_" + ("mud" if kind == "sand" else "sand")] = rnd.choice([0.25, 4.0])
        slack = kind != "water" and i % 8 in (1, 7)
        if slack:
            cfg.update(Np_sed=20000, stepmax=1)
        args.append(dict(cfg=cfg, kind=kind, th2=th2, gam=gam, rs=rnd.randrange(10**6), states=3, slack=slack))
    for i in range(60 if chk.thorough else 10):
        kind = ["sand", "mud"][i % 2]
        cfg = models.base_cfg(os.path.join(chk.scratch, "f%d" % i), 750.0)
        dx = rnd.choice([25.0, 50.0])
        cfg.update(dx=dx, Length=8 * dx, Width=16 * dx, L0_meters=2 * dx, N0_meters=4 * dx, u0=1.0, h0=rnd.choice([0.5, 3.0, 5.0]),
                   seed=rnd.randrange(10**6), save_metadata=False, theta_water=rnd.choice([0.0, 0]), Np_water=10, itermax=1,
                   Np_sed=rnd.choice([300, 600]), coeff_U_ero_sand=50.0, f_bedload=1.0 if kind == "sand" else 0.0)
        args.append(dict(cfg=cfg, kind="fill" + kind, th2=0, gam=0, rs=rnd.randrange(10**6), states=2))
    res = vlib.run_forked(play, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        evs = r["val"] if r.get("ok") else [vlib.errev(r)]
        traces.append(({"cfg": a["cfg"], "kind": a["kind"], "rs": a["rs"]}, evs))
    chk.extra["states"] = sum(1 for t in traces for e in t[1] if e["ev"] == "grid")
    chk.extra["cells_filled_to_dryness"] = sum(1 for t in traces for e in t[1] if e["ev"] == "fill"
                                               for a, b in zip(e["d0"], e["d1"]) if b < e["dry"] <= a)
    chk.validate("WeightsTrace", traces, parts=8)
