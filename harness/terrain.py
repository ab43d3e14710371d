"""Generated bathymetries and water states for the physics checks."""
import numpy as np


def grid_cfg(rnd):
    """A random small domain with its inlet."""
    dx = rnd.choice([25.0, 50.0, 60.0])
    L = rnd.randint(9, 15)
    W = rnd.randint(14, 25)
    L0 = rnd.randint(1, 3)
    N0 = rnd.randint(2, 5)
    return dict(dx=dx, Length=L * dx, Width=W * dx, L0_meters=L0 * dx, N0_meters=N0 * dx)


def disturb(m, rs, kind):
    """Change the bed (and water surface) of a model between timesteps, in a
    consistent way: depth is stage minus bed where positive."""
    L, W = m.eta.shape
    sea = np.array(m.cell_type) != -2
    sea[0, :] = False
    eta = np.array(m.eta, dtype=float)
    st = np.array(m.stage, dtype=float)
    if kind in ("islands", "mixed"):
        for _ in range(rs.randint(1, 5)):
            r, c = rs.randint(1, L), rs.randint(0, W)
            a, b = rs.randint(1, 4), rs.randint(1, 4)
            s = np.zeros((L, W), bool)
            s[max(0, r - a):r + a, max(0, c - b):c + b] = True
            s &= sea
            eta[s] = m.H_SL + rs.choice([-0.05, 0.0, 0.2, 1.0])
    if kind in ("rough", "mixed"):
        eta[sea] += rs.uniform(-0.6, 0.6, (L, W))[sea]
    if kind == "bars":
        r = rs.randint(2, L - 2)
        s = np.zeros((L, W), bool)
        s[r:r + 2] = True
        c = rs.randint(2, W - 3)
        s[:, c:c + 2] = False
        eta[s & sea] = m.H_SL + 0.3
    if kind == "shallow":
        eta[sea] = m.H_SL - rs.uniform(0.0, 0.5, (L, W))[sea]
    if kind in ("waves", "mixed"):
        st = np.maximum(st + rs.uniform(0, 0.4, (L, W)) * sea, m.H_SL)
    st = np.maximum(st, m.H_SL)
    m.eta[:] = eta
    m.stage[:] = st
    m.depth[:] = np.maximum(m.stage - m.eta, 0)


KINDS = ["none", "islands", "rough", "bars", "shallow", "waves", "mixed"]


def basin(m):
    """A rectangular basin: only the outermost cells are its edge."""
    m.cell_type[m.L0:, :] = 0
    m.cell_type[-1, :] = -1
    m.cell_type[m.L0:, 0] = -1
    m.cell_type[m.L0:, -1] = -1
