"""Drives real runs (boot, update, crash, resume) and records their traces."""
import json
import os
import resource
import shutil
import signal
import sys

import models
from models import FastModel, DeltaModel, TICK, exact

MID = {"solved": "hook_apply_subsidence", "advanced": "hook_output_data",
       "output": "hook_output_checkpoint"}


EVS = {"run": ("boot", "load", "update"), "newfile": ("boot", "loadnew", "updnew"),
       "odd": ("odd", "odd", "odd")}


def obs(m, out_dir, prev_sig):
    e = models.clock(m)
    e["clk"] = repr((float(m.time), float(m.save_time_since_data)))
    e["dig"] = models.core_digest(m)
    e["stp"] = models.step_digest(m)
    e["rng"] = models.rng_digest()
    d = models.disk(out_dir)
    e.update(d)
    e["ckNew"] = d["ckSig"] != prev_sig
    return e


class Recorder:
    """Append events to a file as they happen, so that a crash keeps them."""

    def __init__(self, path):
        self.f = open(path, "a")
        self.sig = ""

    def put(self, e):
        self.sig = e.get("ckSig", self.sig)
        self.f.write(json.dumps(e) + "\n")
        self.f.flush()


def _killer(spec):
    """Die at the n-th file system operation that Python reports: "3b" just
    before the third one, "3a" just after it (in the first call made from
    then on, when a file opened for writing is there but empty)."""
    n, after = int(spec[:-1]), spec[-1] == "a"
    seen = [0]

    def prof(frame, what, arg):
        if frame.f_code.co_name != "fs_hook":
            os._exit(9)

    def fs_hook(ev, args):
        hit = ev in ("os.rename", "os.remove", "os.truncate", "shutil.move",
                     "shutil.copyfile", "os.link", "os.symlink")
        if ev == "open" and isinstance(args[1], str) and any(x in args[1] for x in "wax+"):
            hit = not str(args[0]).endswith((".log", ".ndjson", "null"))
        if hit:
            seen[0] += 1
            if seen[0] == n:
                if not after:
                    os._exit(9)
                sys.setprofile(prof)

    sys.addaudithook(fs_hook)


def _fsize(limit):
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))


def make_class(real, tide=False, sw=99, dt2=0, custom=False):
    base = DeltaModel if real else FastModel

    class M(base):
        _die_in = None
        _die_fs = None

        def _maybe(self, name):
            if self._die_in == name:
                os._exit(9)

        def hook_solve_water_and_sediment_timestep(self):
            # (compared with what is in force, so that an unchanged timestep is not set again)
            if self.time_iter >= sw and self.time_step != dt2:
                self.time_step = dt2
            if tide:  # a user's own sea level, on top of the configured rise
                self.H_SL = self.H_SL + 0.0137 * (self.time_iter % 3)

        def hook_init_output_file(self):
            if custom:  # variables of a user's own in the output
                co = ("total_time", "length", "width") if self.legacy_netcdf else ("time", "x", "y")
                self._save_var_list["actlay"] = ["active_layer", "fraction", "f4", co]
                self._save_var_list["meta"]["parcels"] = ["Np_water", "parcels", "i8", ()]
                self._save_var_list["meta"]["sea"] = ["H_SL", "meters", "f4", (co[0])]

        def hook_apply_subsidence(self):
            self._maybe("hook_apply_subsidence")

        def hook_output_data(self):
            self._maybe("hook_output_data")

        def hook_output_checkpoint(self):
            self._maybe("hook_output_checkpoint")
            if self._die_fs:
                kind, v = self._die_fs
                if kind == "size":
                    _fsize(int(v))
                else:
                    _killer(v)

    M.__name__ = "M"
    return M


def segment(arg):
    """One process: construct or resume, update n times, die as told."""
    cfg, ops, path, real, sig = arg["cfg"], arg["ops"], arg["path"], arg["real"], arg["sig"]
    out_dir = cfg["out_dir"]
    rec = Recorder(path)
    rec.sig = sig
    M = make_class(real, arg["cfg"].get("H_SL", 0) == 0.3, *arg.get("switch", (99, 0)),
                   custom=arg.get("custom", False))
    m = None
    evname = EVS[arg.get("evs", "run")]
    for op in ops:
        if op == "b":
            m = M(**cfg)
            rec.put(dict(obs(m, out_dir, ""), ev=evname[0]))
        elif op[0] == "r":
            if ":" in op:
                kind, v = op.split(":")[1].split("=")
                if kind == "size":
                    _fsize(int(v))
                else:
                    _killer(v)
            c = dict(cfg)
            c["resume_checkpoint"] = arg.get("resume", True)
            if arg.get("noseed"):
                c.pop("seed")
            m = M(**c)
            if ":" in op:
                os._exit(9)
            rec.put(dict(obs(m, out_dir, rec.sig), ev=evname[1]))
        elif op == "u":
            m.update()
            rec.put(dict(obs(m, out_dir, rec.sig), ev=evname[2]))
        elif op == "f":
            m.finalize()
        elif op.startswith("die:"):
            where = op[4:]
            if where == "idle":
                os._exit(9)
            if where.startswith("writing"):
                kind, v = where.split(":")[1].split("=")
                m._die_fs = (kind, v)
            else:
                m._die_in = MID[where]
            m.update()
            # still alive: the crash point was not reached in this update
            os._exit(11)
    if m is not None and "f" not in ops:
        os._exit(0)
    return True


def run_segment(arg):
    """Fork one segment and wait; returns the exit status of the process."""
    pid = os.fork()
    if pid == 0:
        rc = 0
        try:
            segment(arg)
        except BaseException as e:  # noqa
            try:
                with open(arg["path"], "a") as f:
                    f.write(json.dumps({"ev": "error", "exc": type(e).__name__,
                                        "msg": str(e)[:200]}) + "\n")
            finally:
                rc = 13
        os._exit(rc)
    _, st = os.waitpid(pid, 0)
    return st


def reference(cfg, n, real, work, switch, custom=False):
    """The uninterrupted run of n timesteps; returns its recording."""
    path = os.path.join(work, "ref.ndjson")
    c = dict(cfg, out_dir=os.path.join(work, "ref"))
    run_segment(dict(cfg=c, ops=["b"] + ["u"] * n + ["f"], path=path, real=real, sig="", switch=switch,
                     custom=custom))
    with open(path) as f:
        evs = [json.loads(x) for x in f]
    fin = models.disk(c["out_dir"])
    shutil.rmtree(c["out_dir"], ignore_errors=True)
    return evs, fin


def spec_cfg(cfg, dt, evs, fin, switch=(99, 1.0)):
    ok = [e for e in evs if e["ev"] in ("boot", "update")]
    pad = lambda v, d: v if v else [d]  # noqa
    save = cfg.get("save_dt", 50000)
    ck = cfg.get("checkpoint_dt")
    ck = save if ck is None else ck
    return {
        "dt": exact(dt, TICK), "sw": switch[0], "dt2": exact(switch[1], TICK), "save": int(save * TICK), "ck": int(ck * TICK),
        "ckOn": bool(cfg.get("save_checkpoint", False)),
        "nc": bool(cfg.get("_nc", True)),
        "ref": pad([e["dig"] for e in ok], "?"), "rng": pad([e["rng"] for e in ok], "?"),
        "clk": pad([e["clk"] for e in ok], "?"),
        "stp": pad([e["stp"] for e in ok], "?"),
        "reft": pad([e["t"] for e in ok], -1), "refsd": pad([e["sd"] for e in ok], -1),
        "refsi": pad([e["si"] for e in ok], -1),
        "frec": fin["recs"] or ["?"], "layout": fin["layout"],
    }


def scenario(arg):
    """Replay one behaviour of the specification; returns (cfg, events)."""
    work, hist, real, dt = arg["work"], arg["hist"], arg["real"], arg["dt"]
    os.makedirs(work)
    ycfg = {k: v for k, v in arg["cfg"].items() if not k.startswith("_")}
    ycfg["out_dir"] = os.path.join(work, "out")
    # number of timesteps of the reference: the furthest the run can get
    it = best = 0
    ck = 0
    n_ref = sum(1 for h in hist if h == "u") + 2
    sw = arg.get("switch", (99, dt))
    evs_ref, fin = reference(ycfg, n_ref, real, work, sw, arg.get("custom", False))
    scfg = spec_cfg(dict(ycfg, _nc=arg["cfg"].get("_nc", True)), dt, evs_ref, fin, sw)
    path = os.path.join(work, "t.ndjson")
    open(path, "w").close()

    def events():
        with open(path) as f:
            return [json.loads(x) for x in f if x.strip()]

    def last(field, default):
        es = [e for e in events() if field in e]
        return es[-1][field] if es else default

    if any(e["ev"] == "error" for e in evs_ref):
        return scfg, [e for e in evs_ref if e["ev"] == "error"]
    segs, cur = [], []
    for h in hist:
        cur.append(h)
        if h.startswith("x:"):
            segs.append(cur)
            cur = []
    if cur:
        segs.append(cur)
    pending_r = False
    variant = arg.get("variant", 0)
    for si, seg in enumerate(segs):
        ops = []
        upto = "none"
        if si > 0:
            if seg[0] == "r":
                ops.append("r")
                seg = seg[1:]
            else:  # died while resuming
                v = variant + si
                if arg.get("kill"):
                    ops.append("r:" + arg["kill"])
                elif v % 3 == 0 and scfg["nc"]:
                    try:
                        sz = os.path.getsize(os.path.join(ycfg["out_dir"], models.NC))
                    except OSError:
                        sz = 40000
                    ops.append("r:size=%d" % (sz * (1 + v % 5) // 6))
                else:
                    ops.append("r:fs=%d%s" % (1 + v // 6 % 3, "ba"[v % 2]))
                seg = []
        for h in seg:
            if h in ("b", "u"):
                ops.append(h)
            elif h == "r":
                pass
            elif h.startswith("x:"):
                w = h[2:]
                if w in ("read", "copied"):
                    w = "idle"
                if w == "writing":
                    try:
                        sz = os.path.getsize(os.path.join(ycfg["out_dir"], "checkpoint.npz"))
                    except OSError:
                        sz = 8000
                    v = variant + si
                    w = "writing:size=%d" % (sz * (1 + v % 4) // 5) if v % 2 else "writing:fs=%d%s" % (1 + v // 2 % 4, "ba"[v // 8 % 2])
                    if arg.get("kill"):
                        w = "writing:" + arg["kill"]
                if w == "output":
                    upto = "output"
                elif w.startswith("writing"):
                    upto = "writing"
                ops.append("die:" + w)
        lastseg = si == len(segs) - 1 and not (ops and ops[-1].startswith("die"))
        if lastseg:
            ops.append("f")
        n0 = len(events())
        st = run_segment(dict(cfg=ycfg, ops=ops, path=path, real=real, sig=last("ckSig", ""),
                              switch=sw, custom=arg.get("custom", False), noseed=variant % 5 == 2))
        code = os.waitstatus_to_exitcode(st)
        if code == 13:
            break
        if code == 11:  # crash point not reached: the update completed
            d = models.disk(ycfg["out_dir"])
            with open(path, "a") as f:
                f.write(json.dumps(dict(d, ev="dead", upto="whole")) + "\n")
        elif code == 9 or code == -int(signal.SIGXFSZ):
            d = models.disk(ycfg["out_dir"])
            with open(path, "a") as f:
                f.write(json.dumps(dict(d, ev="dead", upto=upto)) + "\n")
        elif code == 0:
            d = models.disk(ycfg["out_dir"])
            es = events()
            if len(es) and es[-1].get("it") is not None:
                maxit = max(e["it"] for e in es if "it" in e)
                if es[-1]["it"] == maxit == len(scfg["ref"]) - 1:
                    with open(path, "a") as f:
                        f.write(json.dumps(dict(d, ev="end")) + "\n")
        else:
            with open(path, "a") as f:
                f.write(json.dumps({"ev": "error", "exc": "Died%d" % code, "msg": ""}) + "\n")
            break
    evs = events()
    shutil.rmtree(work, ignore_errors=True)
    return scfg, evs


def scenario_newfile(arg):
    """Resume where the output file is gone, or from another folder."""
    work, real, dt, n1, n2 = arg["work"], arg["real"], arg["dt"], arg["n1"], arg["n2"]
    os.makedirs(work)
    ycfg = {k: v for k, v in arg["cfg"].items() if not k.startswith("_")}
    ycfg["out_dir"] = os.path.join(work, "out")
    evs_ref, fin = reference(ycfg, n1 + n2, real, work, (99, 0))
    scfg = spec_cfg(dict(ycfg, _nc=True), dt, evs_ref, fin)
    path = os.path.join(work, "t.ndjson")
    open(path, "w").close()
    run_segment(dict(cfg=ycfg, ops=["b"] + ["u"] * n1 + ["f"], path=path, real=real, sig=""))
    c2 = dict(ycfg)
    resume = True
    if arg["elsewhere"]:
        resume = ycfg["out_dir"]
        c2["out_dir"] = os.path.join(work, "out2")
    else:
        os.remove(os.path.join(ycfg["out_dir"], models.NC))
    with open(path) as f:
        es = [json.loads(x) for x in f if x.strip()]
    sig = "" if arg["elsewhere"] else es[-1].get("ckSig", "")
    run_segment(dict(cfg=c2, ops=["r"] + ["u"] * n2 + ["f"], path=path, real=real, sig=sig,
                     evs="newfile", resume=resume))
    with open(path) as f:
        es = [json.loads(x) for x in f if x.strip()]
    shutil.rmtree(work, ignore_errors=True)
    return scfg, es


def scenario_odd(arg):
    """Resumed several times, with timesteps that are no binary fraction."""
    work, real, parts = arg["work"], arg["real"], arg["parts"]
    os.makedirs(work)
    ycfg = dict(arg["cfg"], out_dir=os.path.join(work, "out"))
    # (no more than the checkpoint interval divides: every part resumes where the last one ended)
    evs_ref, fin = reference(ycfg, sum(parts), real, work, (99, 0))
    scfg = spec_cfg(ycfg, 1.0, evs_ref, fin)
    path = os.path.join(work, "t.ndjson")
    open(path, "w").close()
    for i, n in enumerate(parts):
        run_segment(dict(cfg=ycfg, ops=["r" if i else "b"] + ["u"] * n + ["f"], path=path, real=real,
                         sig="", evs="odd"))
    with open(path) as f:
        es = [json.loads(x) for x in f if x.strip()]
    es.append(dict(models.disk(ycfg["out_dir"]), ev="end"))
    shutil.rmtree(work, ignore_errors=True)
    return scfg, es


def scenario_jobs(arg):
    """Jobs of one input, run for a while and then resumed by a second call
    of the preprocessor; one recording per job."""
    import jobs
    work, real, dt, n1, n2, par = arg["work"], arg["real"], arg["dt"], arg["n1"], arg["n2"], arg["par"]
    os.makedirs(work)
    base = DeltaModel if real else FastModel
    ycfg = {k: v for k, v in arg["cfg"].items() if not k.startswith("_")}

    class J(base):
        def _put(self, ev):
            p = os.path.join(work, os.path.basename(self.out_dir.rstrip("/")) + ".ndjson")
            sig = ""
            if os.path.exists(p):
                with open(p) as f:
                    sig = json.loads(f.read().splitlines()[-1])["ckSig"]
            e = dict(obs(self, self.out_dir, sig), ev=ev)
            with open(p, "a") as f:
                f.write(json.dumps(e) + "\n")

        def update(self):
            if not getattr(self, "begun", False):
                self.begun = True
                self._put("load" if self.resume_checkpoint else "boot")
            super().update()
            self._put("update")

    out = os.path.join(work, "out")
    y = dict(ycfg, out_dir=out, timesteps=n1, matrix={"seed": arg["seeds"]})
    y.pop("seed")
    f = models.write_yaml(os.path.join(work, "in.yml"), y)
    pp, _ = jobs.run_pp(f, {}, arg["via"], par, J)
    y.update(timesteps=n2, resume_checkpoint=True)
    models.write_yaml(f, y)
    pp, _ = jobs.run_pp(f, {}, arg["via"], par, J)
    res = []
    for c in pp.config_list:
        d = os.path.join(work, "r" + str(c["seed"]))
        os.makedirs(d)
        evs_ref, fin = reference(dict(ycfg, seed=c["seed"]), n1 + n2, real, d, (99, 0))
        scfg = spec_cfg(dict(ycfg, _nc=True), dt, evs_ref, fin, (99, dt))
        with open(os.path.join(work, os.path.basename(str(c["out_dir"])) + ".ndjson")) as f:
            evs = [json.loads(x) for x in f]
        evs.append(dict(models.disk(str(c["out_dir"])), ev="end"))
        res.append((scfg, evs))
    shutil.rmtree(work, ignore_errors=True)
    return res
