"""C21: diagnostic plots and figures (spec/Plot*)."""
import hashlib
import os
import random
import warnings

import numpy as np

import models
import vlib

FIELDS = ["eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "qs", "sand_frac", "active_layer", "cell_type"]


def ints(a):
    a = np.nan_to_num(np.asarray(a, dtype=float), nan=-77777.0, posinf=-77778.0, neginf=-77779.0)
    return [[int(np.floor(v * 1000 + 0.5)) for v in row] for row in a]


def digest(m):
    h = hashlib.sha1()
    for k in FIELDS:
        h.update(np.ascontiguousarray(getattr(m, k)).tobytes())
    h.update(repr((m.time, m.time_iter, m.save_iter, m.H_SL, models.shared_tools.get_random_state()[0])).encode())
    return h.hexdigest()


def points(line):
    out = []
    for x, y in zip(np.atleast_1d(line.get_xdata()), np.atleast_1d(line.get_ydata())):
        if np.isnan(float(x)) or np.isnan(float(y)):
            out.append([-10, -10])
        else:
            out.append([int(round(float(x) * 10)), int(round(float(y) * 10))])
    return out


def play(a):
    warnings.simplefilter("ignore")
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    m = models.DeltaModel(**models.base_cfg(a["work"], **a["cfg"]))
    for _ in range(a["n"]):
        m.update()
    rng = np.random.default_rng(a["seed"])
    for k in FIELDS[:-1]:  # every cell a value of its own
        getattr(m, k)[:] = rng.integers(-9000, 9000, size=(m.L, m.W)) / 8.0
    evs = []
    for op in a["ops"]:
        fig, axes = plt.subplots(1, 2)
        mine, other = axes[op["side"]], axes[1 - op["side"]]
        kw = {}
        if op["byax"]:
            kw["ax"] = mine
            plt.sca(other)
        else:
            plt.sca(mine)
        e = {"ev": op["op"], "outcome": "ok", "L": int(m.L), "W": int(m.W)}
        before = digest(m)
        made = None
        try:
            if op["op"] == "ind":
                flat = [c["a"] if c["k"] == "flat" else (c["a"], c["b"]) for c in op["cells"]]
                e.update(cells=op["cells"], valid=True, style=op["style"], lines=[], markers=[])
                if op["how"] == "triple":
                    e["valid"] = False
                    flat = (1, 2, 3)
                elif op["how"] == "outside":
                    e["valid"] = False
                    b = int(op["cells"][0]["b"])
                    flat = int(m.L * m.W) + b if b >= 0 else b
                elif op["how"] == "array":
                    flat = np.array([c["a"] for c in op["cells"]])
                    e["cells"] = [dict(c, k="flat") for c in op["cells"]]
                elif op["how"] == "one":
                    flat = flat[0]
                    e["cells"] = op["cells"][:1]
                args = []
                if op["style"]:
                    if op["byargs"]:
                        args = ["b" + op["style"]]
                    else:
                        kw["marker"] = op["style"]
                m.show_ind(flat, *args, **kw)
                e["lines"] = [points(x) for x in mine.lines]
                e["markers"] = [x.get_marker() for x in mine.lines]
            elif op["op"] == "line":
                e.update(form=op["form"], data=op["data"], nozeros=op["nozeros"], lines=[], returned=0)
                d = op["data"]
                if op["nozeros"] or op["seed"] % 2:
                    kw["nozeros"] = op["nozeros"]
                if op["form"] == "multi":
                    x = np.array(d).T
                    kw["multiline"] = True
                elif op["form"] == "lists":
                    x = [np.array(r) for r in d]
                elif op["form"] in ("flat", "pairs"):
                    x = np.array(d[0])
                    if op["aslist"]:
                        x = list(tuple(r) for r in d[0]) if op["form"] == "pairs" else list(d[0])
                ret = m.show_line(x, **kw)
                e["lines"] = [points(y) for y in mine.lines]
                e["returned"] = sum(1 for y in ret if any(y is z for z in mine.lines)) if isinstance(ret, list) else -1
            elif op["op"] == "field":
                e.update(kind=op["kind"], field=[], images=[], extent=[])
                name = op["name"]
                if op["kind"] == "field":
                    e["field"] = ints(getattr(m, name))
                m.show_attribute(name, grid=op["grid"], **kw)
                e["images"] = [ints(x.get_array()) for x in mine.images]
                e["extent"] = [int(round(v * 10)) for v in (mine.images or [None])[0].get_extent()]
            else:
                t = op["t"]
                e.update(field=ints(getattr(m, op["name"])), images=[], mesh=[], titled=False, dx=int(m.dx))
                made = m.make_figure(op["name"], t)
                ax = made.axes[0]
                q = [x for x in ax.collections if hasattr(x, "get_coordinates")]
                e["images"] = [ints(np.reshape(x.get_array(), (m.L, m.W))) for x in q]
                e["mesh"] = [[[int(round(float(v))) for v in p] for p in row] for row in q[0].get_coordinates()]
                e["titled"] = op["name"] in ax.get_title() and str(t) in ax.get_title()
                kw["ax"] = mine  # neither of the two axes is its own
        except Exception as x:
            e["outcome"] = type(x).__name__
            e["msg"] = str(x)[:80]
        e["elsewhere"] = len(other.lines) + len(other.images) + len(other.collections)
        e["changed"] = digest(m) != before
        plt.close("all")
        evs.append(e)
    try:
        m.finalize()
    except Exception:
        pass
    return evs


def ops(rnd, L, W, n):
    out = []

    def flat():
        return rnd.choice([0, 0, W - 1, W, L * W - 1, rnd.randrange(L * W), rnd.randrange(L * W), rnd.randrange(L * W)])

    for _ in range(n):
        o = {"op": rnd.choice(["ind", "ind", "line", "line", "field", "fig"]), "side": rnd.randrange(2),
             "byax": rnd.random() < 0.5, "seed": rnd.randrange(100)}
        if o["op"] == "ind":
            o["how"] = rnd.choice(["one", "list", "list", "array", "triple", "outside"])
            o["style"] = rnd.choice(["", "s", "^", "*"])
            o["byargs"] = rnd.random() < 0.5
            o["cells"] = []
            for _ in range(rnd.randint(1, 6)):
                if rnd.random() < 0.5 or o["how"] == "array":
                    o["cells"].append({"k": "flat", "a": flat(), "b": 0})
                else:
                    o["cells"].append({"k": "pair", "a": rnd.randrange(L), "b": rnd.randrange(W)})
            if o["how"] == "outside":
                o["cells"][0]["b"] = rnd.choice([0, 0, 5, 900, -1, -7])
        elif o["op"] == "line":
            o["form"] = rnd.choice(["flat", "pairs", "multi", "lists"])
            o["nozeros"] = rnd.random() < 0.5
            o["aslist"] = rnd.random() < 0.5
            k = rnd.randint(1, 8)
            if o["form"] == "pairs":
                o["data"] = [[[rnd.randrange(W), rnd.randrange(L)] for _ in range(k)]]
                o["nozeros"] = False
            else:
                lines = 1 if o["form"] == "flat" else rnd.randint(1, 5)
                o["data"] = [[flat() for _ in range(k if o["form"] != "lists" else rnd.randint(1, 8))]
                             for _ in range(lines)]
        elif o["op"] == "field":
            o["kind"] = rnd.choice(["field", "field", "field", "field", "notext", "scalar", "vector", "missing"])
            o["name"] = {"field": rnd.choice(FIELDS), "notext": rnd.choice([1.0, 3]), "scalar": rnd.choice(["u0", "L", "dt"]),
                         "vector": rnd.choice(["inlet", "xc"]), "missing": "no_such_field"}[o["kind"]]
            o["grid"] = rnd.random() < 0.3
        else:
            o["name"] = rnd.choice(FIELDS)
            o["t"] = rnd.choice([0.0, 1500.0, 86400.5])
        out.append(o)
    return out


def run(chk):
    chk.design("Plot", "Plot.cfg")
    models.warm(chk.scratch)
    rnd = random.Random(chk.seed)
    grids = [(12, 20), (10, 12), (16, 13), (20, 12)]
    args = []
    for i in range(32 if chk.thorough else 8):
        L, W = grids[i % 4]
        args.append(dict(work=os.path.join(chk.scratch, "p%d" % i), seed=rnd.randrange(10 ** 6), n=i % 2,
                         cfg=dict(Length=L * 50.0, Width=W * 50.0),
                         ops=ops(rnd, L, W, 120 if chk.thorough else 60)))
    res = vlib.run_forked(play, args, chk.scratch, timeout=200)
    traces = []
    for a, r in zip(args, res):
        traces.append(({"cfg": {"L": a["cfg"]["Length"], "ops": len(a["ops"])}},
                       r["val"] if r.get("ok") else [vlib.errev(r)]))
    chk.validate("PlotTrace", traces, parts=8)
