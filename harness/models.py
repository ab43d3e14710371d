"""Helpers around the code under test: small configurations, a model with
cheap stand-in physics, observation of public state and of files on disk."""
import os
import shutil
import sys
import warnings

sys.path.insert(0, "/repo")
import numpy as np  # noqa
import yaml  # noqa
import netCDF4  # noqa

import pyDeltaRCM  # noqa
from pyDeltaRCM import shared_tools  # noqa
from pyDeltaRCM.model import DeltaModel  # noqa
from vlib import digest, exact, num  # noqa

warnings.simplefilter("ignore")

# exactly representable time steps: dt -> parameters (dx=50)
DTS = {
    187.5: dict(N0_meters=150.0, u0=0.8, h0=5.0, C0_percent=10.0),
    250.0: dict(N0_meters=200.0, u0=0.8, h0=4.0, C0_percent=10.0),
    300.0: dict(N0_meters=150.0, u0=0.5, h0=3.0, C0_percent=10.0),
    312.5: dict(N0_meters=250.0, u0=0.8, h0=4.0, C0_percent=10.0),
    375.0: dict(N0_meters=150.0, u0=2.0, h0=3.0, C0_percent=2.0),
    500.0: dict(N0_meters=150.0, u0=1.5, h0=3.0, C0_percent=2.0),
    600.0: dict(N0_meters=150.0, u0=0.5, h0=2.0, C0_percent=5.0),
    750.0: dict(N0_meters=150.0, u0=1.0, h0=3.0, C0_percent=2.0),
    937.5: dict(N0_meters=150.0, u0=0.8, h0=5.0, C0_percent=2.0),
    1000.0: dict(N0_meters=150.0, u0=1.5, h0=4.0, C0_percent=1.0),
    1500.0: dict(N0_meters=150.0, u0=0.5, h0=2.0, C0_percent=2.0),
    3750.0: dict(N0_meters=150.0, u0=2.0, h0=3.0, C0_percent=0.2),
    15000.0: dict(N0_meters=150.0, u0=1.0, h0=5.0, C0_percent=0.1),
}
TICK = 2  # ticks per second
SMALL = dict(
    Length=600.0, Width=1000.0, dx=50.0, L0_meters=100.0, S0=0.0003,
    Np_water=20, Np_sed=20, itermax=1, seed=3,
)


def base_cfg(out_dir, dt=750.0, **kw):
    c = dict(SMALL)
    c.update(DTS[dt])
    c["out_dir"] = out_dir
    c.update(kw)
    return c


def write_yaml(path, d):
    with open(path, "w") as f:
        yaml.safe_dump(d, f, sort_keys=False)
    return path


class FastModel(DeltaModel):
    """The model with its water and sediment physics replaced by something
    cheap that depends on every field a checkpoint has to carry, and on the
    random stream of the model."""

    def solve_water_and_sediment_timestep(self):
        self.eta0 = np.copy(self.eta)
        n = 6
        r = np.array([shared_tools.get_random_uniform(1.0) for _ in range(n)])
        mix = (
            0.9 * self.eta + 0.1 * np.roll(self.eta, 1, axis=0)
            + 0.01 * (self.depth - self.stage)
            + 0.02 * np.tanh(self.qx + 2 * self.qy - self.qw)
            + 0.02 * np.tanh(self.ux - self.uy + self.uw)
            + 0.01 * self.sand_frac - 0.02 * self.active_layer
            + 0.03 * self.H_SL
        )
        k = (np.arange(self.L * self.W).reshape(self.L, self.W) % n).astype(int)
        noise = (r[k] - 0.5).astype(np.float32)
        self.eta[:] = np.where(self.cell_type == -2, self.eta, mix + 0.2 * noise)
        self.qx[:] = 0.7 * self.qx + np.roll(noise, 2)
        self.qy[:] = 0.7 * self.qy - np.roll(noise, 3)
        self.qw[:] = 0.6 * self.qw + np.sqrt(self.qx**2 + self.qy**2)
        self.ux[:] = 0.5 * self.ux + 0.1 * self.qx
        self.uy[:] = 0.5 * self.uy + 0.1 * self.qy
        self.uw[:] = 0.5 * self.uw + np.sqrt(self.ux**2 + self.uy**2)
        self.stage[:] = np.maximum(0.95 * self.stage + 0.05 * noise, self.H_SL)
        self.depth[:] = np.maximum(self.stage - self.eta, 0)
        self.qs[:] = np.abs(noise)
        d = self.eta - self.eta0
        self.Vp_dep_sand[:] = np.maximum(d, 0) * (noise > 0)
        self.Vp_dep_mud[:] = np.maximum(d, 0) * 0.5


CORE_FIELDS = [
    "eta", "depth", "stage", "qx", "qy", "qw", "ux", "uy", "uw",
    "sand_frac", "active_layer",
]
STEP_FIELDS = ["qs", "eta0"]


def field(m, name):
    v = getattr(m, name, None)
    return np.zeros(0) if v is None else np.asarray(v)


def core_digest(m):
    """Everything the continuation of a run depends on (public fields)."""
    return digest(*[field(m, f).astype(np.float64) for f in CORE_FIELDS], float(m.H_SL))


def step_digest(m):
    return digest(*[field(m, f).astype(np.float64) for f in STEP_FIELDS])


def rng_digest():
    st = shared_tools.get_random_state()
    return digest(*[np.asarray(x) if not isinstance(x, (int, float)) else x for x in st])


def clock(m):
    return {
        "t": exact(m.time, TICK),
        "it": int(m.time_iter),
        "sd": exact(m.save_time_since_data, TICK),
        "sc": exact(m.save_time_since_checkpoint, TICK),
        "si": int(m.save_iter),
    }


NC = "pyDeltaRCM_output.nc"


def read_nc(path):
    """Contents of an output file: per-record digests and the layout."""
    ds = netCDF4.Dataset(path)
    try:
        ds.set_auto_mask(False)
        times = np.array(ds.variables["time"][:])
        n = len(times)
        groups = [("", ds)] + [(g, ds.groups[g]) for g in sorted(ds.groups)]
        recd = [[] for _ in range(n)]
        layout = []
        for gname, g in groups:
            for vn in sorted(g.variables):
                v = g.variables[vn]
                attrs = {a: str(v.getncattr(a)) for a in sorted(v.ncattrs())}
                tdim = len(v.dimensions) > 0 and ds.dimensions[v.dimensions[0]].isunlimited()
                layout.append([gname + "/" + vn, str(v.dtype), list(v.dimensions), attrs])
                if tdim:
                    d = np.array(v[:])
                    for i in range(n):
                        if i < d.shape[0]:
                            recd[i] += [gname + "/" + vn, digest(np.ascontiguousarray(d[i]))]
                        else:
                            recd[i] += [gname + "/" + vn, "missing"]
                else:
                    layout.append([gname + "/" + vn, digest(np.ascontiguousarray(v[...]))])
        dims = {
            d: (-1 if x.isunlimited() else len(x)) for d, x in ds.dimensions.items()
        }
        glob = {a: str(ds.getncattr(a)) for a in sorted(ds.ncattrs()) if a != "history"}
        glob["has_history"] = str("history" in ds.ncattrs())
        layout += [sorted(dims.items()), sorted(glob.items())]
        return {
            "times": [float(t) for t in times],
            "recs": [digest(*r) for r in recd],
            "layout": digest(repr(layout)),
            "raw_layout": layout,
        }
    finally:
        ds.close()


def disk(out_dir):
    """What is on disk: output records and checkpoint."""
    o = {"ncOK": True, "ncHas": False, "times": [], "recs": [], "layout": ""}
    p = os.path.join(out_dir, NC)
    if os.path.exists(p):
        o["ncHas"] = True
        # a copy: the file as another process finds it on disk
        c = out_dir.rstrip("/") + ".copy.nc"
        try:
            shutil.copyfile(p, c)
            r = read_nc(c)
            os.remove(c)
            o["times"] = [exact(t, TICK) for t in r["times"]]
            o["recs"] = r["recs"]
            o["layout"] = r["layout"]
        except Exception:
            o["ncOK"] = False
    q = os.path.join(out_dir, "checkpoint.npz")
    o["ckHas"] = os.path.exists(q)
    o["ckOK"] = True
    o["ckIt"] = -1
    o["ckT"] = -1
    o["ckSig"] = ""
    if o["ckHas"]:
        st = os.stat(q)
        o["ckSig"] = "%d-%d-%d" % (st.st_ino, st.st_mtime_ns, st.st_size)
        try:
            with np.load(q, allow_pickle=True) as z:
                names = list(z.keys())
                for k in names:
                    z[k]
                if "time_iter" in names:
                    o["ckIt"] = int(z["time_iter"])
                if "time" in names:
                    o["ckT"] = exact(float(z["time"]), TICK)
        except Exception:
            o["ckOK"] = False
    return o


def warm(scratch, full=True):
    """Compile the jitted code once, in the parent, before forking."""
    import shutil
    d = os.path.join(scratch, "warm")
    try:
        m = DeltaModel(**base_cfg(d, save_metadata=False, save_checkpoint=False))
        if full:
            m.update()
        m.finalize()
    except Exception:
        pass
    import logging
    for name in list(logging.root.manager.loggerDict):
        if d in name:
            for h in list(logging.getLogger(name).handlers):
                h.close()
    shutil.rmtree(d, ignore_errors=True)
