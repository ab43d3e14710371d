"""C10: clock, sea level and subsidence (spec/Forcing*)."""
import os
import random
import shutil
import warnings

import numpy as np

import models
import vlib

U = 2.0 ** 20  # units per metre
DTU = {750: 2.0, 1000: 1.5, 1500: 1.0}  # half seconds -> velocity


def uniq(a):
    v = np.unique(np.floor(np.asarray(a, dtype=float) * U + 0.5))
    if len(v) > 12:
        v = np.concatenate([v[:6], v[-6:]])
    return [vlib.num(x) for x in v]


def make(base, still):
    class M(base):
        def _see(self):
            if getattr(self, "rec", None) is not None:
                self.rec["during"].append(vlib.exact(self.H_SL, U))

        def hook_solve_water_and_sediment_timestep(self):
            self._see()

        def hook_route_water(self):
            self._see()

        def hook_init_water_iteration(self):
            self._see()

        def hook_finalize_water_iteration(self, i):
            self._see()

        def hook_route_sediment(self):
            self._see()

        def hook_apply_subsidence(self):
            self._see()
            self.b0 = np.array(self.eta, dtype=float)

        def hook_finalize_timestep(self):
            self._see()
            self.b1 = np.array(self.eta, dtype=float)

        def hook_compute_sand_frac(self):
            self._see()

        if still:
            def solve_water_and_sediment_timestep(self):
                self.eta0 = np.copy(self.eta)
    return M


def at(m, ev):
    return {"ev": ev, "t": vlib.exact(m.time, 2), "it": int(m.time_iter), "sl": vlib.exact(m.H_SL, U)}


def play(a):
    warnings.simplefilter("ignore")
    c, h, d, still = a["c"], a["h"], a["dir"], a["still"]
    K = make(models.DeltaModel, still)
    cfg = models.base_cfg(d, 750.0, u0=DTU[c["dt"]], toggle_subsidence=c["on"], start_subsidence=c["start"] / 2,
                          subsidence_rate=c["rate"] / U, SLR=c["slr"] / U, H_SL=c["sl0"] / U,
                          save_checkpoint=True, save_dt=1, **a["opts"])
    if cfg["start_subsidence"] == int(cfg["start_subsidence"]) and a["ints"]:
        cfg["start_subsidence"] = int(cfg["start_subsidence"])
    m = K(**cfg)
    if a["island"]:  # land in the middle of the basin, above the water
        m.eta[5:8, 4:9] = min(m.H_SL, 3.0) + 1.25
        m.depth[:] = np.maximum(m.stage - m.eta, 0)
    evs = [at(m, "at")]
    for k, (w, v) in enumerate(h):
        if w == "step":
            r = m.rec = {"during": []}
            l0 = int(round(100.0 / cfg["dx"]))
            e0 = np.array(m.eta, dtype=float)
            edge0 = vlib.exact(m.stage[m.L - 2, m.W // 2], U)
            inl = np.array(m.inlet, dtype=int)
            m.update()
            e = at(m, "step")
            e["during"] = r["during"]
            dd = m.b1 - m.b0
            e["land"], e["rest"] = uniq(dd[:l0]), uniq(dd[l0:])
            e["stageKnown"] = bool(still) and not a["high"]
            e["edge0"], e["edge"] = edge0, vlib.num(m.stage[m.L - 2, m.W // 2], U)
            w2 = np.array(m.eta, dtype=float) - e0
            w2[0, inl] = 0  # (set to the prescribed inlet depth)
            e["whole"] = uniq(w2[l0:]) if still else []
            e["wholeland"] = uniq(w2[:l0]) if still else []
            m.rec = None
            evs.append(e)
        elif w == "slr":
            if a["alt"] and k % 2:
                m.SLR = v / U
            else:
                m.sea_surface_elevation_change = v / U
            evs.append({"ev": "slr", "v": v})
            if a["alt"]:
                m.sea_surface_mean_elevation = (k + 1) / 8
                evs.append({"ev": "sl", "v": int((k + 1) * U / 8)})
        elif w == "dt":
            if (k + a["ints"]) % 2:
                m.time_step = v / 2
            else:
                m.channel_flow_velocity = DTU[v]
            evs.append({"ev": "dt", "v": v})
        elif w == "resume":
            # (state at the last checkpoint, i.e. after the last timestep)
            if evs[-1]["ev"] == "sl" or any(x["ev"] == "sl" for x in evs[-3:]):
                continue
            m.finalize()
            m = K(**dict(cfg, resume_checkpoint=True))
            evs.append(at(m, "resume"))
    m.finalize()
    shutil.rmtree(d, ignore_errors=True)
    return evs


def jobs(a):
    """Jobs of the preprocessor, each with its own forcing."""
    warnings.simplefilter("ignore")
    from pyDeltaRCM.preprocessor import Preprocessor
    d, c = a["dir"], a["c"]
    cfg = models.base_cfg(d, 750.0, u0=DTU[c["dt"]], toggle_subsidence=True, subsidence_rate=c["rate"] / U,
                          SLR=c["slr"] / U, H_SL=c["sl0"] / U, timesteps=3, save_dt=1, save_eta_grids=True)
    starts = [0, 750, 800]
    cfg["matrix"] = {"start_subsidence": starts}
    log = {}
    K = make(models.DeltaModel, True)

    class J(K):
        def __init__(self, *q, **k):
            super().__init__(*q, **k)
            self.evs = log.setdefault(float(self.start_subsidence), [])
            self.evs.append(at(self, "at"))

        def update(self):
            self.rec = {"during": []}
            edge0 = vlib.exact(self.stage[self.L - 2, self.W // 2], U)
            super().update()
            e = at(self, "step")
            dd = self.b1 - self.b0
            e.update(during=self.rec["during"], land=uniq(dd[:2]), rest=uniq(dd[2:]), stageKnown=True,
                     edge0=edge0, edge=vlib.num(self.stage[self.L - 2, self.W // 2], U), whole=[], wholeland=[])
            self.rec = None
            self.evs.append(e)
    pp = Preprocessor(models.write_yaml(d + ".yml", cfg))
    pp.run_jobs(DeltaModel=J)
    return [[dict(c, on=True, start=int(2 * s)), log.get(float(s), [{"ev": "error", "exc": "NoJob"}])] for s in starts]


def go(a):
    return jobs(a) if a["do"] == "jobs" else play(a)


def run(chk):
    chk.design("Forcing", "Forcing.cfg")
    beh = []
    for depth in (7, 10):
        b = chk.simulate("ForcingGen", "ForcingGen.cfg" if depth == 7 else "ForcingGen9.cfg", 4000 if chk.thorough else 400, depth + 1, chk.seed + depth)
        # one behaviour per prefix (the simulator prints every last step)
        seen = {}
        for x in b:
            seen.setdefault(repr((x["c"], x["h"][:-1])), []).append(x)
        rnd = random.Random(chk.seed)
        beh += [rnd.choice(v) for v in seen.values()]
    beh = [b for b in beh if any(x[0] == "step" for x in b["h"])]
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    n = 1500 if chk.thorough else 260
    rnd.shuffle(beh)
    args = []
    for i, b in enumerate(beh[:n]):
        still = i % 3 != 0
        high = still and i % 7 == 3  # a level that single precision does not hold
        if high:
            b = dict(b, c=dict(b["c"], sl0=b["c"]["sl0"] + 40 * 2**20 + 2))
        args.append(dict(do="play", c=b["c"], h=b["h"], dir=os.path.join(chk.scratch, "f%d" % i), still=still,
                         high=high, island=still and i % 2 == 0 and not high, alt=i % 5 == 1, ints=i % 2, opts=dict(itermax=rnd.choice([1, 2]), Np_water=10, Np_sed=10,
                                                              save_eta_grids=rnd.random() < .3)))
    for k, b in enumerate(beh[:4]):
        args.append(dict(do="jobs", c=dict(b["c"], rate=[2, 64, -32, 6][k]), dir=os.path.join(chk.scratch, "j%d" % k)))
    res = vlib.run_forked(go, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        if a["do"] == "jobs":
            if r.get("ok"):
                traces += [({"cfg": dict(c, tol=0), "job": True}, e) for c, e in r["val"]]
            else:
                traces.append(({"cfg": {}}, [vlib.errev(r)]))
            continue
        sc = {"cfg": dict(a["c"], tol=0 if a["still"] else 1), "h": a["h"], "still": a["still"], "alt": a["alt"]}
        traces.append((sc, r["val"] if r.get("ok") else [vlib.errev(r)]))
    chk.validate("ForcingTrace", traces)
