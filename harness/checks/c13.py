"""C13: sediment parcels, diffusion and conservation (spec/Sed*)."""
import os
import random
import shutil
import warnings

import numpy as np

import models
import terrain
import vlib
from checks.c11 import tri
from checks.c12 import ints
from models import shared_tools

H = 1e5
FIELDS = ("eta", "depth", "uw", "ux", "uy", "qs", "Vp_dep_sand", "Vp_dep_mud")


def snap(m):
    return {k: np.array(getattr(m, k), dtype=np.float32) for k in FIELDS}


def restore(m, s):
    for k in FIELDS:
        getattr(m, k)[:] = s[k]


class K:
    """What the configuration says about sizes and thresholds."""

    def __init__(self, m, c):
        n0 = len(np.asarray(m.inlet).ravel())
        self.n0, self.c = n0, c
        self.V = 0.1 * n0**2 * c["h0"] / c["Np_sed"]
        self.vol = self.V * c["dx"] ** 2
        self.half = c["u0"] * c["h0"] * c["C0_percent"] / 100.0 * n0 / (2.0 * c["Np_sed"])
        self.dry = min(0.1, 0.1 * c["h0"])

    def derived(self, s):
        c, u = self.c, s["uw"].astype(float)
        b = c["beta"]
        return dict(
            cap=ints(2.0 * c["Np_sed"] / self.n0 * c["f_bedload"] * (u / c["u0"]) ** b, 1e4),
            es=ints((u / (c["coeff_U_ero_sand"] * c["u0"])) ** b - 1, 1e4),
            em=ints((u / (c["coeff_U_ero_mud"] * c["u0"])) ** b - 1, 1e4),
            dm=ints(1 - (u / (c["coeff_U_dep_mud"] * c["u0"])) ** b, 1e4),
            wet=[1 if x == 0 else 0 if x == 1 else 2 for x in tri(s["depth"], self.dry, True).ravel()],
            eta=ints(s["eta"], H), qs=ints(s["qs"], 1e4 / self.half), uw=ints(u, 1e4))


def parcel_event(m, k, kind, base, inlet):
    c = k.c
    key = "Vp_dep_sand" if kind == "sand" else "Vp_dep_mud"
    return dict(ev="parcel", kind=kind, L=m.L, W=m.W, type=ints(m.cell_type, 1), inlet=inlet,
                V=vlib.num(k.V, H), lam=vlib.num(c["sed_lag"], 1000),
                stage=ints(m.stage, H), qx=ints(m.qx, 1e4), qy=ints(m.qy, 1e4), qw=ints(m.qw, 1e4), cap4=vlib.num(2 * c["u0"], 1e4),
                me=ints(m.mod_erosion, 1000), sw=ints(np.asarray(m.mod_sed_weight) > 0, 1),
                dep=ints(base[key], H / c["dx"] ** 2), **k.derived(base))


def step_event(m, k, kind, prev, s):
    """What one step of a parcel changed, and the cells it changed (but for
    the flux of sand)."""
    c = k.c
    key, oth = ("Vp_dep_sand", "Vp_dep_mud") if kind == "sand" else ("Vp_dep_mud", "Vp_dep_sand")
    qw, qx, qy = (np.array(getattr(m, n), dtype=float).ravel() for n in ("qw", "qx", "qy"))
    d = k.derived(s)
    dep = ints(s[key], H / c["dx"] ** 2)
    depth = ints(s["depth"], H)
    other = np.zeros(s["eta"].size, bool)
    for f in FIELDS:
        if f != "qs":
            other |= (s[f] != prev[f]).ravel()
    out = []
    for i in np.nonzero(other | (s["qs"] != prev["qs"]).ravel())[0]:
        i = int(i)
        u, ux, uy = (float(s[f].flat[i]) for f in ("uw", "ux", "uy"))
        ok = (abs(ux * qw[i] - u * qx[i]) + abs(uy * qw[i] - u * qy[i]) < 1e-4 * (1 + u * qw[i])
              if qw[i] > 0 else ux == 0 and uy == 0)
        out.append(dict(i=i, other=bool(other[i]), eta=d["eta"][i], qs=d["qs"][i], cap=d["cap"][i], es=d["es"][i],
                        em=d["em"][i], dm=d["dm"][i], wet=d["wet"][i], uw=d["uw"][i], dep=dep[i], depth=depth[i],
                        dmm=vlib.num(float(s["depth"].flat[i]), 1e3), dirOK=bool(ok)))
    return dict(ev="step", ch=out, otherDep=bool((s[oth] == prev[oth]).all())), np.nonzero(other)[0]


def follow(m, k, kind, seed, steps, evs):
    """The steps of one parcel: the same start, cut off one step later each time."""
    route = m.route_all_sand_parcels if kind == "sand" else m.route_all_mud_parcels
    base = snap(m)
    full = m.stepmax
    evs.append(parcel_event(m, k, kind, base, [int(x) for x in np.asarray(m.inlet).ravel()]))
    prev, last = base, 0
    for n in range(1, steps + 1):
        restore(m, base)
        m.stepmax = n
        m.init_sediment_routers()
        shared_tools.set_random_seed(seed)
        route()
        s = snap(m)
        e, oc = step_event(m, k, kind, prev, s)
        evs.append(e)
        prev = s
        if n > 3 and not e["ch"] and int(m.cell_type.flat[last]) == -1:
            break
        last = int(oc[0]) if len(oc) else last
    m.stepmax = full
    m.init_sediment_routers()


def chain(m, k, evs, rs):
    """Mud parcels one after the other: all take the one way left open to
    them, so that each run repeats the one before with one parcel more."""
    c = k.c
    base, full, msw, fb = snap(m), m.stepmax, np.array(m.mod_sed_weight), m.bedload_fraction
    st, qk = np.array(m.stage), (np.array(m.qx), np.array(m.qy), np.array(m.qw))
    inl = [int(x) for x in np.asarray(m.inlet).ravel()]
    col = int(rs.choice(inl))
    m.only = inl.index(col)
    m.mod_sed_weight[:] = 0
    m.mod_sed_weight[1:, col] = 1
    m.qx[:], m.qy[:], m.qw[:] = 0.01, 0, 0.01
    m.uw[:], m.ux[:], m.uy[:] = 2 * c["u0"], 2 * c["u0"], 0
    m.stage[:] = np.maximum(m.stage, m.eta + rs.randint(4, 40) / 4.0)
    m.depth[:] = m.stage - m.eta
    start = snap(m)
    m.stepmax = 1
    prev = start
    for n in range(1, 5):
        restore(m, start)
        m.bedload_fraction = 1 - (n + 0.5) / c["Np_sed"]
        m.init_sediment_routers()
        m.route_all_mud_parcels()
        s = snap(m)
        evs.append(parcel_event(m, k, "mud", prev, [col]))
        evs.append(step_event(m, k, "mud", prev, s)[0])
        prev = s
    m.only = None
    m.bedload_fraction = fb
    m.mod_sed_weight[:] = msw
    m.stage[:] = st
    m.qx[:], m.qy[:], m.qw[:] = qk
    restore(m, base)
    m.stepmax = full
    m.init_sediment_routers()


def count(m, k, evs, rs, fast):
    """Number of parcels, from what they leave in a single step."""
    c = k.c
    base, full, mod = snap(m), m.stepmax, np.array(m.mod_erosion)
    st, qk = np.array(m.stage), (np.array(m.qx), np.array(m.qy), np.array(m.qw))
    m.stepmax = 1
    m.init_sediment_routers()
    m.init_sediment_iteration()
    m.qs[:] = 0
    if fast:
        # water fast enough for the parcels to gain
        m.uw[:], m.ux[:], m.uy[:] = 2 * c["u0"], 2 * c["u0"], 0
        m.qw[:], m.qx[:], m.qy[:] = 2 * c["u0"] * m.depth, 2 * c["u0"] * m.depth, 0
    shared_tools.set_random_seed(int(rs.randint(10**6)))
    m.route_all_sand_parcels()
    ns = float(np.array(m.qs, dtype=float).sum() / k.half / 3)
    row0 = np.array(m.qs, dtype=float)[0]
    inl = set(int(x) for x in np.asarray(m.inlet).ravel())
    first = float(row0.sum() / k.half)
    startok = all(row0[j] < 1e-9 or j in inl for j in range(m.W)) and (ns < 0.5 or first > 1.9 * ns)
    restore(m, base)
    # still, deep water: every mud parcel leaves its lot at its first step
    m.uw[:], m.ux[:], m.uy[:] = 0, 0, 0
    m.stage[:] = m.stage + 40 * k.V * c["Np_sed"] + 50
    m.depth[:] = m.stage - m.eta
    m.init_sediment_iteration()
    a = np.array(m.Vp_dep_mud, dtype=float)
    m.qw[:] = 0
    m.route_all_mud_parcels()
    got = (np.array(m.Vp_dep_mud, dtype=float) - a).sum()
    nm = got / (k.vol * c["sed_lag"])
    m.stage[:] = st
    m.qx[:], m.qy[:], m.qw[:] = qk
    restore(m, base)
    m.stepmax = full
    m.init_sediment_routers()
    evs.append(dict(ev="count", np=c["Np_sed"], f=vlib.num(c["f_bedload"], 1000), nsand=vlib.num(ns), nmud=vlib.num(nm),
                    whole=bool(abs(ns - round(ns)) < 0.01 and abs(nm - round(nm)) < 0.01), startOK=bool(startok)))


def diffuse(m, k, evs, rs):
    c = k.c
    base = snap(m)
    n = int(round(0.1 * k.n0**2))
    C0 = c["C0_percent"] / 100.0
    dt = 0.1 * k.n0**2 * c["h0"] * c["dx"] ** 2 / (c["u0"] * c["h0"] * C0 * k.n0 * c["dx"])
    mult = dt / n * c["alpha"] * 0.5 / c["dx"] ** 2
    L, W = m.eta.shape
    w = rs.randint(0, rs.choice([4, 25]), (L, W)) * (rs.rand(L, W) < rs.choice([0.2, 0.7, 1.0]))
    kind = rs.randint(4)
    eta = (np.full((L, W), -rs.randint(1, 60) / 8.0) if kind == 0 else
           rs.randint(-40, 20, (L, W)) / 8.0 if kind == 1 else np.array(m.eta, dtype=float))
    if kind == 3:
        eta = eta + rs.randint(-3, 4)
    m.eta[:] = eta
    m.qs[:] = w / (mult * 1000.0)
    e0 = np.array(m.eta)
    rest = vlib.digest(*[np.array(getattr(m, f)) for f in FIELDS if f != "eta"], np.array(m.stage), np.array(m.sand_frac))
    m.topo_diffusion()
    e1 = np.array(m.eta)
    evs.append(dict(ev="diff", L=L, W=W, type=ints(m.cell_type, 1), w=ints(w, 1), n=n, eta=ints(e0, 1e4), eta2=ints(e1, 1e4),
                    same=ints(e0 == e1, 1), tol=3 + 3 * n,
                    restSame=rest == vlib.digest(*[np.array(getattr(m, f)) for f in FIELDS if f != "eta"],
                                                 np.array(m.stage), np.array(m.sand_frac))))
    restore(m, base)


class Sed(models.DeltaModel):
    only = None
    basin = False

    def hook_after_create_domain(self):
        if type(self).basin:
            terrain.basin(self)

    def get_inlet_weights_sediment(self, **kw):
        w = super().get_inlet_weights_sediment(**kw)
        if self.only is not None:
            w = np.zeros_like(w)
            w[self.only] = 1
        return w

    def hook_solve_water_and_sediment_timestep(self):
        if self.plan and self.time_iter < len(self.plan):
            terrain.disturb(self, self.rs, self.plan[self.time_iter])

    def hook_route_all_sand_parcels(self):
        self.pre = snap(self)

    def hook_topo_diffusion(self):
        self._stage("sandrun", "Vp_dep_sand", "Vp_dep_mud", int(self.c["Np_sed"] * self.c["f_bedload"]))

    def hook_route_all_mud_parcels(self):
        self.pre = snap(self)

    def hook_after_route_sediment(self):
        self._stage("mudrun", "Vp_dep_mud", "Vp_dep_sand", int(self.c["Np_sed"] * (1 - self.c["f_bedload"])) + 1)

    def _stage(self, ev, key, oth, n):
        if getattr(self, "k", None) is None:
            return
        k, c, s, p = self.k, self.c, snap(self), self.pre
        moved = (s["eta"] != p["eta"]).ravel()
        any_ = moved.copy()
        for f in FIELDS:
            if f != "qs":
                any_ |= (s[f] != p[f]).ravel()
        ch = []
        for i in np.nonzero(any_)[0]:
            i = int(i)
            ch.append(dict(
                i=i, type=int(self.cell_type.flat[i]), moved=bool(moved[i]),
                deta=vlib.num(float(s["eta"].flat[i]) - float(p["eta"].flat[i]), H),
                ddep=vlib.num((float(s[key].flat[i]) - float(p[key].flat[i])) / c["dx"] ** 2, H),
                depth=vlib.num(float(s["depth"].flat[i]), H), stage=vlib.num(float(self.stage.flat[i]), H),
                eta=vlib.num(float(s["eta"].flat[i]), H), uw=vlib.num(float(s["uw"].flat[i]), 1e4),
                dmm=vlib.num(float(s["depth"].flat[i]), 1e3), qw=vlib.num(float(self.qw.flat[i]), 1e4)))
        zero = ev == "mudrun" or not (p["qs"].any() or p["Vp_dep_sand"].any() or p["Vp_dep_mud"].any())
        self.evs.append(dict(ev=ev, ch=ch, brought=vlib.num(n * k.V, H), zero=bool(zero), cap4=vlib.num(2 * c["u0"], 1e4),
                             otherSame=bool((s[oth] == p[oth]).all())))


def play(a):
    warnings.simplefilter("ignore")
    c = a["cfg"]
    Sed.basin = a["basin"]
    m = Sed(**c)
    m.plan, m.rs, m.evs, m.c = a["plan"], np.random.RandomState(a["rs"]), [], c
    m.k = k = K(m, c)
    rs = m.rs
    evs = m.evs
    count(m, k, evs, rs, False)
    count(m, k, evs, rs, True)
    chain(m, k, evs, rs)
    for _ in range(a["steps"]):
        m.update()
    for _ in range(a["diffs"]):
        diffuse(m, k, evs, rs)
    if a["kind"]:
        for j in range(a["parcels"]):
            if j % 2 == 0:
                m.init_sediment_iteration()
            if j == 2:
                m.mod_erosion[:] = rs.randint(0, 5, m.eta.shape) / 2.0
                m.mod_sed_weight[:] = rs.choice([0.0, 1.0, 3.0], m.eta.shape)
            if j % 3 == 2:
                # fast or slow water over the same bed
                f = rs.choice([0.3, 1.5, 2.0, 4.0])
                for n in ("uw", "ux", "uy", "qx", "qy", "qw"):
                    getattr(m, n)[:] = getattr(m, n) * f
                big = np.array(m.uw) > 2 * c["u0"]
                for n in ("uw", "ux", "uy"):
                    x = np.array(getattr(m, n))
                    x[big] *= (2 * c["u0"] / np.array(m.uw)[big]) if n != "uw" else 1
                    getattr(m, n)[:] = x
                m.uw[big] = 2 * c["u0"]
            if j % 5 == 3:
                # bars above the water, which parcels can only cross
                q = slice(1, 1 + rs.randint(2, 5))
                sel = (rs.rand(*m.eta[q].shape) < rs.choice([0.5, 1.0])) & (np.asarray(m.cell_type)[q] != -2)
                m.eta[q] = np.where(sel, m.stage[q] + rs.randint(1, 16, sel.shape) / 4.0, m.eta[q])
                m.depth[:] = np.maximum(m.stage - m.eta, 0)
            follow(m, k, a["kind"], int(rs.randint(10**6)), a["track"], evs)
    m.finalize()
    shutil.rmtree(c["out_dir"], ignore_errors=True)
    return evs


def run(chk):
    chk.design("Sed", "Sed.cfg")
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    args = []
    for i in range(500 if chk.thorough else 64):
        cfg = models.base_cfg(os.path.join(chk.scratch, "w%d" % i), 750.0)
        cfg.update(terrain.grid_cfg(rnd))
        np_sed = rnd.choice([12, 20, 40, 90])
        kind = ["sand", "mud", None][i % 3]
        f = round(1.9 / np_sed, 3) if kind == "sand" else round(1 - 1.9 / np_sed, 3) if kind == "mud" else \
            rnd.choice([0.5, 0.25, 0.1, 0.9, 0.333, 0.0, 1.0, 0.7])
        cfg.update(itermax=1, Np_water=rnd.choice([10, 30]), Np_sed=np_sed, f_bedload=f, seed=rnd.randrange(10**6),
                   h0=rnd.choice([2.0, 3.0, 5.0]), u0=rnd.choice([1.0, 1.5, 2.0]), C0_percent=rnd.choice([0.1, 2.0, 10.0]),
                   H_SL=rnd.choice([0.0, 1.5, -2.0]), beta=rnd.choice([3, 3, 2, 1]), sed_lag=rnd.choice([1.0, 0.5, 0.25]),
                   coeff_U_dep_mud=rnd.choice([0.3, 0.8]), coeff_U_ero_mud=rnd.choice([1.5, 0.9]),
                   coeff_U_ero_sand=rnd.choice([1.05, 0.6]), alpha=rnd.choice([0.1, 0.5]), SLR=rnd.choice([0.0, 2e-6]))
        steps = rnd.choice([1, 2])
        plan = [rnd.choice(terrain.KINDS) for _ in range(steps)] if i % 4 else []
        args.append(dict(cfg=cfg, plan=plan, rs=rnd.randrange(10**6), steps=steps, diffs=2, kind=kind, parcels=5, track=24,
                         basin=i % 5 == 1))
    res = vlib.run_forked(play, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        evs = r["val"] if r.get("ok") else [vlib.errev(r)]
        traces.append(({k: a[k] for k in ("cfg", "plan", "rs", "kind", "basin")}, evs))
    n = [e["ev"] for t in traces for e in t[1]]
    chk.extra["parcel_steps"], chk.extra["diffusions"] = n.count("step"), n.count("diff")
    chk.validate("SedTrace", traces, parts=8)
