"""C07: how long a job runs (spec/Duration*)."""
import itertools
import os
import random
import shutil

import jobs
import models
import vlib

S = 1024
YR = 365.25 * 86400


def scenario(a):
    work = a["work"]
    os.makedirs(work)
    out = os.path.join(work, "out")
    log = os.path.join(work, "steps")
    cfg = models.base_cfg(out, dt=a["dt"], save_metadata=True, save_dt=int(a["dt"] * 2))
    if a.get("extra"):
        cfg.update(a["extra"])
    evs = []
    cls = jobs.counting(models.FastModel, log)

    def conv(d):
        r = {}
        if d["ts"] != -1:
            r["timesteps"] = d["ts"]
        if d["sec"] != -1:
            r["time"] = d["sec"] / S
            if r["time"] == int(r["time"]) and a["int"]:
                r["time"] = int(r["time"])
        if d["yr"] != -1:
            r["time_years"] = d["yr"] / S / YR
        if d["If8"] != -1:
            r["If"] = d["If8"] / 8
        return r

    n0, t0 = 0, 0
    if a["resume"]:
        # (possibly at another length of timestep, before)
        m = models.FastModel(save_checkpoint=True, **dict(cfg, **(models.DTS[a["dt0"]] if a.get("dt0") else {})))
        for _ in range(a["resume"]):
            m.update()
        m.save_the_checkpoint()
        m.finalize()
        n0 = a["resume"]
        t0 = vlib.exact(m.time, S)
        cfg["resume_checkpoint"] = True
    f = models.write_yaml(os.path.join(work, "in.yml"), dict(cfg, **conv(a["file"])))
    e = {"ev": "job", "file": a["file"], "over": a["over"], "n0": n0, "t0": t0, "via": a["via"],
         "par": a["par"] or 0, "it": -1, "t": -1}
    try:
        pp, txt = jobs.run_pp(f, conv(a["over"]), a["via"], a["par"], cls)
        e["outcome"] = "ran"
        if not a["par"]:
            d = pp.job_list[0].deltamodel
            e["it"], e["t"] = int(d.time_iter), vlib.exact(d.time, S)
    except Exception as x:
        e["outcome"] = type(x).__name__
        e["msg"] = str(x)[:100]
    e["steps"] = sum(1 for _ in open(log)) if os.path.exists(log) else 0
    evs.append(e)
    shutil.rmtree(work, ignore_errors=True)
    return evs


def multi(a):
    """Several jobs, with the duration fixed or itself varied."""
    work = a["work"]
    os.makedirs(work)
    log = os.path.join(work, "steps")
    cfg = models.base_cfg(os.path.join(work, "out"), dt=750.0)
    cfg.pop("seed")
    cfg.update(a["cfg"])
    f = models.write_yaml(os.path.join(work, "in.yml"), cfg)
    blank = {"ts": -1, "sec": -1, "yr": -1, "If8": -1}
    evs = []
    pp, txt = jobs.run_pp(f, a["over"], a["via"], a["par"], jobs.counting(models.FastModel, log))
    got = {}
    if os.path.exists(log):
        for x in open(log):
            got[x.split()[0]] = got.get(x.split()[0], 0) + 1
    for i, want in enumerate(a["want"]):
        evs.append({"ev": "job", "file": dict(blank, ts=want), "over": blank, "n0": 0, "t0": 0, "it": -1,
                    "t": -1, "outcome": "ran", "steps": got.get("job_%03d" % i, 0),
                    "via": a["via"], "par": a["par"] or 0})
    shutil.rmtree(work, ignore_errors=True)
    return evs


def run(chk):
    chk.design("Duration", "Duration.cfg")
    models.warm(chk.scratch, full=False)
    rnd = random.Random(chk.seed)
    args = []
    combos = list(itertools.product(itertools.product((0, 1), repeat=4),
                                    itertools.product((0, 1), repeat=4), ("py", "cli")))
    rnd.shuffle(combos)
    reps = 6 if chk.thorough else 1
    dts = [750.0, 187.5, 15000.0, 1500.0, 312.5, 3750.0]
    for k in range(reps):
        for i, (fp, op, via) in enumerate(combos):
            dt = dts[(i + k) % len(dts)]

            def spec(p):
                # lengths around whole multiples of the timestep
                m8 = rnd.choice([0, 1, 2, 3, 5])
                sec = int(m8 * dt * S) + rnd.choice([0, 0, -8, 8, 4096]) if m8 else rnd.choice([0, 8])
                if rnd.random() < 0.3:
                    sec = int(rnd.choice([1, 2, 4]) * dt * S * 8) // rnd.choice([1, 2, 4])
                sec = max(0, sec // 8 * 8)
                yr = int(YR * S / 4096) * rnd.choice([1, 1, 2, 3, 8])
                yr = min(yr, int(7 * dt * S / 985 ) * 985 if dt < 1500 else yr)
                # years must convert exactly: whole multiples of year/4096
                yr = 7889400 * max(1, min(8, yr // 7889400))
                return {"ts": rnd.choice([0, 1, 2, 3, 4, 7]) if p[0] else -1,
                        "sec": sec if p[1] else -1,
                        "yr": yr if p[2] else -1,
                        "If8": rnd.choice([8, 4, 2, 1]) if p[3] else -1}

            fs, os_ = spec(fp), spec(op)
            # keep the runs short: years only with long timesteps
            if (fs["yr"] != -1 or os_["yr"] != -1) and dt < 1500:
                dt = rnd.choice([15000.0, 3750.0])
            args.append(dict(work=os.path.join(chk.scratch, "d%d_%d" % (k, i)), dt=dt, file=fs,
                             over=os_, via=via, par=[None, None, None, 1, None, True, None][i % 7],
                             resume=[0, 0, 2][i % 3], int=i % 2,
                             dt0=[0, 250.0, 3750.0, 500.0][i // 3 % 4]))
    # years of 365.25 days: lengths that just exceed a whole number of timesteps
    year = [(15000.0, 37, 8), (15000.0, 74, 4), (15000.0, 257, 2), (15000.0, 187, 1), (3750.0, 74, 1), (3750.0, 37, 2),
            (1500.0, 81, 1)]
    for i, (dt, n, f) in enumerate(year * (2 if chk.thorough else 1)):
        d = dict(ts=-1, sec=-1, yr=7889400 * n, If8=f)
        none = {"ts": -1, "sec": -1, "yr": -1, "If8": -1}
        args.append(dict(work=os.path.join(chk.scratch, "y%d" % i), dt=dt, file=none if i % 2 else d,
                         over=d if i % 2 else none, via=["py", "cli"][i // 2 % 2], par=None, resume=0, int=0))
    # timestep lengths that are not exactly representable, many timesteps
    blank = {"ts": -1, "sec": -1, "yr": -1, "If8": -1}
    inexact = [dict(u0=0.7, h0=3.3, C0_percent=0.3, dx=50.0), dict(u0=1.1, C0_percent=0.13),
               dict(h0=1.7, C0_percent=0.1, u0=1.3), dict(N0_meters=370.0, u0=0.9, C0_percent=0.7)]
    for i, ex in enumerate(inexact * (4 if chk.thorough else 2)):
        n = [17, 29, 33, 41, 100, 10, 23, 7][i % 8]
        src = i % 2
        args.append(dict(work=os.path.join(chk.scratch, "e%d" % i), dt=750.0, extra=ex, exact=False,
                         file=dict(blank, ts=-1 if src else n), over=dict(blank, ts=n if src else -1),
                         via="py", par=[None, 1][i // 4 % 2], resume=[0, 3][i % 2], int=1))
    res = vlib.run_forked(scenario, args, chk.scratch, timeout=120)
    traces = []
    for a, r in zip(args, res):
        cfg = {"dt": vlib.exact(a["dt"], S) if a.get("exact", True) else -1}
        info = {k: v for k, v in a.items() if k != "work"}
        traces.append((dict(info, cfg=cfg), r["val"] if r.get("ok") else [vlib.errev(r)]))
    ms = []
    for i, (via, par) in enumerate([("py", None), ("py", 2), ("cli", None), ("cli", 2)]):
        ms += [dict(cfg={"timesteps": 3, "matrix": {"seed": [1, 2, 3]}}, over={}, want=[3, 3, 3]),
               dict(cfg={"matrix": {"timesteps": [1, 3, 2]}}, over={}, want=[1, 3, 2]),
               dict(cfg={"timesteps": 5, "matrix": {"seed": [1, 2]}}, over={"timesteps": 2}, want=[2, 2]),
               dict(cfg={"timesteps": 5, "ensemble": 2}, over={"time": 1000.0}, want=[2, 2]),
               dict(cfg={"set": [{"timesteps": 2, "seed": 1}, {"timesteps": 4, "seed": 2}]}, over={},
                    want=[2, 4])]
        for m in ms[-5:]:
            m.update(via=via, par=par)
    for i, m in enumerate(ms):
        m["work"] = os.path.join(chk.scratch, "m%d" % i)
    res = vlib.run_forked(multi, ms, chk.scratch, timeout=120)
    for a, r in zip(ms, res):
        traces.append(({"cfg": {"dt": -1}, "a": {k: v for k, v in a.items() if k != "work"}},
                       r["val"] if r.get("ok") else [vlib.errev(r)]))
    chk.validate("DurationTrace", traces)
