"""C19: model time, real time and rates per real year (spec/Convert*)."""
import os
import random
import shutil
import warnings

import numpy as np

import jobs
import models
import vlib

Q = 21600.0  # a quarter of a day
YR = 365.25 * 86400


def r(x, scale):
    return vlib.num(np.floor(float(x) * scale + 0.5))


def convert(a):
    """Calls of the two conversion functions."""
    from pyDeltaRCM import preprocessor, shared_tools
    evs = []
    for c in a["calls"]:
        e = dict(c, outcome="ok", r=0)
        ty = e.pop("ty")
        try:
            If = c["p"] / c["q"]
            if If == int(If) and ty % 2:
                If = int(If)
            if c["ev"] == "time":
                t = c["t"] * (1.0 if c["unit"] == "seconds" else Q)
                if ty == 1:
                    t = int(t)
                elif ty == 2:
                    t = np.float64(t)
                if ty == 3 and If == 1:
                    v = shared_tools.scale_model_time(t, units=c["unit"])
                elif ty == 3 and c["unit"] == "seconds":
                    v = shared_tools.scale_model_time(t, If)
                else:
                    v = shared_tools.scale_model_time(t, If=If, units=c["unit"])
                e["r"] = r(v, 1000)
            else:
                mm = c["mm"]
                if ty == 3 and If == 1:
                    v = preprocessor.scale_relative_sea_level_rise_rate(mm)
                elif ty == 1:
                    v = preprocessor.scale_relative_sea_level_rise_rate(float(mm), If)
                else:
                    v = preprocessor.scale_relative_sea_level_rise_rate(mm, If=If)
                e["r"] = r(v, 1e16)
        except Exception as x:
            e["outcome"] = type(x).__name__
        evs.append(e)
    return evs


class Still(models.DeltaModel):
    def solve_water_and_sediment_timestep(self):
        self.eta0 = np.copy(self.eta)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.bed0 = float(self.eta[self.L0 + 4, self.CTR])
        self.sea0 = float(self.H_SL)


def job(a):
    """A job of real years, rates given per real year."""
    warnings.simplefilter("ignore")
    from pyDeltaRCM import preprocessor, shared_tools
    work = a["work"]
    os.makedirs(work)
    If = a["p"] / a["q"]
    sc = lambda *x: float(preprocessor.scale_relative_sea_level_rise_rate(*x))  # noqa
    cfg = models.base_cfg(os.path.join(work, "out"), dt=a["dt"], H_SL=a["h"], SLR=sc(a["mm"], If),
                          toggle_subsidence=True, start_subsidence=0, subsidence_rate=sc(a["sub"], If),
                          save_dt=10 ** 8)
    over = {}
    dur = {"time_years": a["y"] / 1e6} if a["kind"] == "yr" else {"time": a["y"] / 1e6 * YR}
    dur["If"] = If
    (over if a["over"] else cfg).update(dur)
    f = models.write_yaml(os.path.join(work, "in.yml"), cfg)
    e = {k: a[k] for k in ("p", "q", "mm", "sub", "y", "kind", "via", "over")}
    e.update(ev="job", dt=int(a["dt"]), outcome="ok", real=0, sea=0, drop=0, n=0)
    e["over"] = int(a["over"])
    try:
        pp, txt = jobs.run_pp(f, over, a["via"], None, Still)
        m = pp.job_list[0].deltamodel
        e["n"] = int(m.time_iter)
        e["real"] = r(shared_tools.scale_model_time(m.time, If, "years"), 1e6)
        e["sea"] = r(m.H_SL - m.sea0, 1e6)
        e["drop"] = r(m.bed0 - float(m.eta[m.L0 + 4, m.CTR]), 1e6)
    except Exception as x:
        e["outcome"] = type(x).__name__
        e["msg"] = str(x)[:100]
    shutil.rmtree(work, ignore_errors=True)
    return [e]


def run(chk):
    chk.design("Convert", "Convert.cfg")
    models.warm(chk.scratch, full=False)
    rnd = random.Random(chk.seed)
    ifs = [(1, 1), (1, 2), (3, 4), (1, 8), (19, 1000), (1, 100), (999, 1000), (7, 10), (1, 1000)]
    calls = []
    for p, q in ifs:
        for unit in ("seconds", "days", "years"):
            # the largest time that keeps the arithmetic of the specification in range
            top = min(100000, 1500000000 // (1000 * q))
            for k in range(12 if chk.thorough else 5):
                calls.append({"ev": "time", "t": rnd.choice([0, 1, 4, 1461, rnd.randint(0, top)]) if top > 1461
                              else rnd.randint(0, top), "p": p, "q": q, "unit": unit, "ty": rnd.randint(0, 3)})
        for k in range(12 if chk.thorough else 5):
            top = 2000 // q
            mm = rnd.choice([-1, 1]) * rnd.randint(0, max(1, top))
            calls.append({"ev": "rate", "mm": mm, "p": p, "q": q, "ty": rnd.randint(0, 3)})
    for p, q in [(0, 1), (-1, 8), (9, 8), (-1, 1), (1001, 1000), (10001, 10000), (2, 1), (-1, 1000), (365, 1)]:
        for unit in ("seconds", "days", "years"):
            calls.append({"ev": "time", "t": 1461, "p": p, "q": q, "unit": unit, "ty": rnd.choice([0, 1])})
    for unit in ("", "hours", "Years", "year", "yr", "s", "day", "Days", "sec", "months"):
        calls.append({"ev": "time", "t": 1461, "p": 1, "q": rnd.choice([1, 2]), "unit": unit, "ty": 0})
    rnd.shuffle(calls)
    calls = [{"calls": calls[i::8]} for i in range(8)]
    js = []
    for i in range(120 if chk.thorough else 32):
        p, q = rnd.choice([(1, 1), (1, 2), (1, 8), (19, 1000), (1, 100), (1, 50), (3, 4)])
        dt = rnd.choice([15000.0, 3750.0, 1500.0])
        # real years so that the job has at most some 60 timesteps
        y = int(rnd.randint(1, 60) * dt * q / p / YR * 1e6 + (rnd.randint(3, 12) if rnd.random() < 0.5 else -rnd.randint(3, 40)))
        mm = rnd.choice([-1, 1, 1]) * rnd.choice([1, 3, 10, 40, 100])
        sub = rnd.choice([-1, 1, 1]) * rnd.choice([2, 5, 20, 90])
        js.append(dict(work=os.path.join(chk.scratch, "j%d" % i), p=p, q=q, dt=dt, y=max(1, y), mm=mm, sub=sub,
                       h=rnd.choice([0.0, 0.5, -1.25]), kind=["yr", "sec"][i % 3 == 2],
                       via=["py", "cli"][i % 2], over=bool(i // 2 % 2)))
    traces = []
    for a, x in zip(calls, vlib.run_forked(convert, calls, chk.scratch, timeout=120)):
        traces.append(({"cfg": {"calls": len(a["calls"])}}, x["val"] if x.get("ok") else [vlib.errev(x)]))
    for a, x in zip(js, vlib.run_forked(job, js, chk.scratch, timeout=120)):
        traces.append(({"cfg": {"a": {k: v for k, v in a.items() if k != "work"}}},
                       x["val"] if x.get("ok") else [vlib.errev(x)]))
    chk.validate("ConvertTrace", traces)
