"""Common machinery of the checks.

* a scratch directory per run, removed at the end
* running scenarios of the real code in forked children (crash/hang safe)
* running TLC: exhaustive design checks, scenario generation, trace validation
* evidence files, VIOLATION / KNOWN-FINDING lines, exit codes
"""
import hashlib
import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    """The check itself failed: neither "held" nor "violated"."""


# --------------------------------------------------------------------------
# values that TLC can read (32-bit integers, strings, booleans, arrays)
# --------------------------------------------------------------------------
BIG = 2_000_000_000  # stands for "not representable" (never a legal value)
INF = 1_900_000_000  # stands for +infinity
NAN = 1_800_000_000  # stands for NaN


def num(x, scale=1):
    """x as an integer number of 1/scale, rounded; sentinels otherwise."""
    try:
        x = float(x)
    except Exception:
        return BIG
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else -INF
    y = x * scale
    if abs(y) > 1_700_000_000:
        return BIG if y > 0 else -BIG
    return int(math.floor(y + 0.5))


def exact(x, scale=1):
    """x*scale if that is an exact integer in range, else a sentinel."""
    n = num(x, scale)
    if abs(n) < 1_700_000_001 and float(x) * scale != n:
        return BIG - 1
    return n


def digest(*objs):
    h = hashlib.sha1()
    for o in objs:
        if hasattr(o, "tobytes"):
            h.update(str(o.dtype).encode() + str(o.shape).encode())
            h.update(o.tobytes())
        else:
            h.update(repr(o).encode())
        h.update(b"|")
    return h.hexdigest()[:16]


# --------------------------------------------------------------------------
# forked children
# --------------------------------------------------------------------------
def _child(fn, arg, out_path, quiet):
    os.setpgid(0, 0)
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    rc = 0
    try:
        res = {"ok": True, "val": fn(arg)}
    except BaseException as e:  # noqa
        res = {
            "ok": False,
            "exc": type(e).__name__,
            "msg": str(e)[:300],
            "tb": traceback.format_exc()[-3000:],
        }
    try:
        with open(out_path + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out_path + ".tmp", out_path)
    except BaseException:
        rc = 77
        traceback.print_exc()
    sys.stdout.flush()
    os._exit(rc)


def run_forked(fn, args, scratch, nproc=NCPU, timeout=300, quiet=True):
    """Run fn(arg) for every arg in forked children, at most nproc at a time.

    Returns a list of dicts: {"ok": True, "val": ...}, or {"ok": False,
    "exc": ..} (the function raised), {"died": status} (no result written),
    {"hang": True} (timeout).
    """
    os.makedirs(scratch, exist_ok=True)
    res = [None] * len(args)
    todo = list(range(len(args)))
    live = {}
    todo.reverse()
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            path = os.path.join(scratch, "r%d.json" % i)
            pid = os.fork()
            if pid == 0:
                try:
                    _child(fn, args[i], path, quiet)
                finally:
                    os._exit(78)
            live[pid] = (i, path, time.time())
        done = []
        for pid, (i, path, t0) in live.items():
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                done.append(pid)
                if os.path.exists(path):
                    with open(path) as f:
                        res[i] = json.load(f)
                    os.remove(path)
                else:
                    res[i] = {"ok": False, "died": st, "exc": "Died", "msg": str(st)}
            elif time.time() - t0 > timeout:
                for k in (pid,):
                    try:
                        os.killpg(k, signal.SIGKILL)
                    except OSError:
                        try:
                            os.kill(k, signal.SIGKILL)
                        except OSError:
                            pass
                os.waitpid(pid, 0)
                done.append(pid)
                res[i] = {"ok": False, "hang": True, "exc": "Hang", "msg": "timeout"}
        for pid in done:
            try:
                os.killpg(pid, signal.SIGKILL)  # stray grandchildren
            except OSError:
                pass
            del live[pid]
        if not done:
            time.sleep(0.005)
    return res


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
def _tlc_cmd(module, cfg, workers, mem, props=(), extra=()):
    cp = [TLA_JAR]
    d = os.path.dirname(TLA_JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != os.path.basename(TLA_JAR):
            cp.append(os.path.join(d, f))
    return (
        ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx%s" % mem]
        + list(props)
        + ["-cp", ":".join(cp), "tlc2.TLC", "-config", cfg, "-workers", str(workers)]
        + list(extra)
        + [module]
    )


_re_states = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states")


class Tlc:
    def __init__(self, rc, out):
        self.rc = rc
        self.out = out
        m = _re_states.findall(out)
        self.generated, self.distinct = (
            (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", "")))
            if m
            else (0, 0)
        )
        self.ok = rc == 0 and (
            "No error has been found" in out or "simulation" in out.lower()
        )


def _spec_copy(scratch):
    wd = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), wd)
    return wd


def run_tlc(scratch, module, cfg, workers=1, mem="4g", env=None, extra=(), timeout=600):
    """Run TLC on a copy of the specification in a scratch directory."""
    wd = _spec_copy(scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = _tlc_cmd(
        module + ".tla",
        cfg,
        workers,
        mem,
        extra=["-metadir", os.path.join(wd, "md"), "-noGenerateSpecTE"] + list(extra),
    )
    try:
        p = subprocess.run(
            cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=timeout, text=True,
        )
    except subprocess.TimeoutExpired as x:
        raise MachineryError("TLC timed out on %s/%s" % (module, cfg)) from x
    shutil.rmtree(wd, ignore_errors=True)
    return Tlc(p.returncode, p.stdout)


# --------------------------------------------------------------------------
# one check
# --------------------------------------------------------------------------
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.viol = []  # (clause, detail)
        self.known = []
        self.bg = []
        try:
            os.remove(os.path.join(VERIF, "evidence", "replay", prop + ".json"))
        except OSError:
            pass

    # ---- exhaustive design checks -----------------------------------------
    def design(self, module, cfg, workers=NCPU, timeout=600, mem="4g"):
        """Start model-checking the design specification; it must succeed.

        TLC runs beside the rest of the check; its result is collected in
        finish(), so that no check reports anything without it."""
        wd = _spec_copy(self.scratch)
        log = open(os.path.join(wd, "log"), "w+")
        p = subprocess.Popen(
            _tlc_cmd(module + ".tla", cfg, workers, mem,
                     extra=["-metadir", os.path.join(wd, "md"), "-noGenerateSpecTE"]),
            cwd=wd, stdout=log, stderr=subprocess.STDOUT)
        self.bg.append((p, log, module, cfg, time.time() + timeout))

    def _collect(self):
        bg, self.bg = self.bg, []
        for p, log, module, cfg, end in bg:
            try:
                p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
            log.seek(0)
            r = Tlc(p.returncode, log.read())
            log.close()
            if not r.ok:
                raise MachineryError("design check %s/%s failed:\n%s" % (module, cfg, r.out[-4000:]))
            self.states += r.distinct
            self.transitions += r.generated
            self.extra.setdefault("design", []).append(
                {"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated})

    def generate(self, module, cfg, env=None, **kw):
        """Let TLC enumerate scenarios of the specification (JSON file)."""
        out = os.path.join(self.scratch, "gen_%s.json" % os.path.basename(cfg))
        e = {"GEN_OUT": out}
        e.update(env or {})
        r = run_tlc(self.scratch, module, cfg, env=e, **kw)
        if not r.ok or not os.path.exists(out):
            raise MachineryError(
                "scenario generation %s/%s failed:\n%s" % (module, cfg, r.out[-4000:])
            )
        self.states += r.distinct
        self.transitions += r.generated
        with open(out) as f:
            txt = f.read()
        try:
            return json.loads(txt)
        except ValueError:
            return [json.loads(x) for x in txt.splitlines() if x.strip()]

    def simulate(self, module, cfg, num, depth, seed):
        """Distinct behaviours printed by the specification in simulation mode."""
        r = run_tlc(self.scratch, module, cfg, workers=1,
                    extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
        out, seen = [], set()
        for line in r.out.splitlines():
            m = re.match(r'"SCN (.*)"$', line.strip())
            if m and m.group(1) not in seen:
                seen.add(m.group(1))
                out.append(json.loads(m.group(1).replace('\\"', '"')))
        if not out:
            raise MachineryError("no behaviours generated:\n" + r.out[-2000:])
        self.extra["behaviours_generated"] = self.extra.get("behaviours_generated", 0) + len(out)
        return out

    # ---- trace validation --------------------------------------------------
    def validate(self, module, traces, cfg=None, mem="6g", parts=None, keep=None):
        """Check recorded traces against the specification.

        traces: list of (scenario, [event, ...]); every trace is preceded by
        a "begin" event, which resets the specification to its initial state.
        The trace specification consumes every event and reports the set of
        violated clauses <<index, clause>>. Only clauses of this property
        (prefix "Cxx:") and failures to deliver an observation at all
        ("no-failure") count, since specifications are shared by checks.
        """
        keep = keep or (self.prop + ":", "no-failure", "unknown-event")
        cfg = cfg or (module + ".cfg")
        traces = [t for t in traces if t[1]]
        if not traces:
            raise MachineryError("no traces recorded for " + module)
        parts = parts or min(NCPU, max(1, sum(len(t[1]) for t in traces) // 400), len(traces))
        groups = [traces[k::parts] for k in range(parts)]
        procs = []
        for gi, g in enumerate(groups):
            tf = os.path.join(self.scratch, "%s_%d.ndjson" % (module, gi))
            of = os.path.join(self.scratch, "%s_%d.verdict.json" % (module, gi))
            if os.path.exists(of):
                os.remove(of)
            index = []
            with open(tf, "w") as f:
                for ti, (sc, evs) in enumerate(g):
                    f.write(json.dumps({"ev": "begin", "sc": ti, "cfg": sc.get("cfg", {})}) + "\n")
                    index.append((ti, -1))
                    for ei, ev in enumerate(evs):
                        f.write(json.dumps(ev) + "\n")
                        index.append((ti, ei))
            wd = _spec_copy(self.scratch)
            e = dict(os.environ)
            e.update({"TRACE": tf, "VERDICT": of})
            log = open(os.path.join(wd, "log"), "w+")
            p = subprocess.Popen(
                _tlc_cmd(module + ".tla", cfg, 1, mem if parts == 1 else "3g",
                         extra=["-metadir", os.path.join(wd, "md"), "-noGenerateSpecTE"]),
                cwd=wd, env=e, stdout=log, stderr=subprocess.STDOUT,
            )
            procs.append((p, g, index, of, log))
        n_bad = 0
        for p, g, index, of, log in procs:
            try:
                p.wait(timeout=700)
            except subprocess.TimeoutExpired:
                p.kill()
                raise MachineryError("trace validation timed out: " + module)
            log.seek(0)
            out = log.read()
            log.close()
            r = Tlc(p.returncode, out)
            if "The error occurred when TLC was evaluating" in out:
                # recorded values outside of anything the specification can produce
                self.violation(self.prop + ":not-a-behaviour-of-the-specification",
                               {"module": module, "tlc": out[-3000:]})
                n_bad += 1
                continue
            if p.returncode != 0 or not os.path.exists(of):
                raise MachineryError("trace validation failed: %s\n%s" % (module, out[-5000:]))
            with open(of) as f:
                ver = json.load(f)
            if isinstance(ver, list):
                ver = ver[0]
            if ver["consumed"] != len(index):
                raise MachineryError(
                    "%s: consumed %s of %d events" % (module, ver["consumed"], len(index))
                )
            self.states += r.distinct
            self.transitions += r.generated
            self.events += len(index)
            for b in ver["bad"]:
                ti, ei = index[b["at"] - 1]
                sc, evs = g[ti]
                if not b["clause"].startswith(tuple(keep)):
                    continue
                n_bad += 1
                self.violation(
                    b["clause"],
                    {
                        "module": module,
                        "scenario": sc,
                        "event_index": ei,
                        "event": evs[ei] if ei >= 0 else None,
                        "previous_events": evs[max(0, ei - 2) : ei] if ei > 0 else [],
                    },
                )
        self.traces += len(traces)
        if len(self.samples) < 6:
            sc, evs = traces[len(traces) // 2]
            self.samples.append(_short({"scenario": sc, "first_events": evs[:2], "n_events": len(evs)}))
        return n_bad

    # ---- results -------------------------------------------------------------
    def violation(self, clause, detail):
        self.viol.append((clause, detail))

    def finish(self):
        try:
            self._collect()
        except MachineryError:
            if not self.viol:
                raise
        kf = _known_findings(self.prop)
        viol = []
        for c, d in self.viol:
            k = next((k for k in kf if k["clause"] == c and _match(k.get("match", {}), d)), None)
            if k is None:
                viol.append((c, d))
            elif k["what"] not in self.known:
                self.known.append(k["what"])
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "samples": self.samples,
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if viol:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".json")
            seen, rep = {}, []
            for c, d in viol:
                if seen.setdefault(c, 0) < 3:
                    rep.append({"clause": c, "detail": d})
                seen[c] += 1
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "clauses": seen, "violations": rep}, f, indent=1, default=str)
                f.write("\n")
            for c in seen:
                print("  violated clause: %s (%d times)" % (c, seen[c]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s held: %d traces, %d events, %d states, %.1f s" % (
            self.prop, self.traces, self.events, self.states, time.time() - self.t0))
        return 0

    def cleanup(self):
        for b in self.bg:
            b[0].kill()
        shutil.rmtree(self.scratch, ignore_errors=True)


def _short(o, n=400):
    s = json.dumps(o, default=str)
    return json.loads(s) if len(s) < 4 * n else s[: 4 * n]


def _known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == prop]


def _match(m, d):
    flat = json.dumps(d, default=str, sort_keys=True)
    return all(json.dumps(v)[1:-1] in flat for v in m.get("contains", []))


def errev(r, **kw):
    """Event for a child that did not deliver a result."""
    e = {"ev": "error", "exc": str(r.get("exc")), "msg": str(r.get("msg"))[:200]}
    e.update(kw)
    return e
