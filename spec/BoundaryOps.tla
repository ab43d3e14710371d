---------------------------- MODULE BoundaryOps -----------------------------
(* Boundary conditions and everything derived from them.                    *)
(* k: what never changes [dx, W, al, S, npw, nps]: cell size (m), cells     *)
(*    across, diffusion coefficient (1/100), slope (1e-5), parcels          *)
(* c: condition [u, h, C, n, f, sl, slr, dt]: velocity and depth of the     *)
(*    inflow (1/10), concentration (1e-4), channel width (m), bedload       *)
(*    fraction (1/1000), sea level (1/1000), its rate (1e-9), and the       *)
(*    timestep asked for (1/10 s, 0 when it follows from the others)        *)
EXTENDS DomainOps, Sequences
Cells(k, c) == Mx(3, Mn(Rnd(c.n, k.dx), k.W \div 4))
Smooths(N) == Mx(1, Rnd(N * N, 10))
\* a / b to the nearest integer
Quo(a, b) == (2 * a + b) \div (2 * b)
Dt(k, c) == IF c.dt # 0 THEN c.dt ELSE Quo(Cells(k, c) * k.dx * 100000, c.u * c.C)
Derived(k, c) ==
    LET N == Cells(k, c)  S == Smooths(N)  IN
    [umax |-> 2 * c.u,                       \* 1/10
     conc |-> c.C,                           \* 1e-4
     dry |-> Mn(100, 10 * c.h),              \* mm
     width |-> N * k.dx,
     gamma |-> Quo(9810 * k.S * k.dx, c.u * c.u),  \* 1e-6
     ref |-> c.h * k.dx * k.dx,              \* 1/10 m3
     qw |-> c.u * c.h,                       \* 1/100
     Qw |-> c.u * c.h * N * k.dx,            \* 1/100
     Qp |-> c.u * c.h * N * k.dx,            \* 1/100, of all parcels
     qs |-> c.u * c.h * c.C,                 \* 1e-6
     Qs |-> c.u * c.h * c.C * N * k.dx,      \* 1e-6
     vs |-> N * N * c.h * k.dx * k.dx,       \* 1/100 m3
     vp |-> N * N * c.h * k.dx * k.dx,       \* 1/100 m3, of all parcels
     dt |-> Dt(k, c),                        \* 1/10 s
     smooths |-> S,
     \* strength of diffusion times dx, 1e-5
     diff |-> IF c.dt # 0 THEN Quo(c.dt * k.al * 5, S * k.dx) ELSE Quo(N * k.al * 500000, c.u * c.C * S)]
(* the public controls *)
Refresh(c) == [c EXCEPT !.dt = 0]
Do(c, op, v) ==
    CASE op = "velocity" -> Refresh([c EXCEPT !.u = v])
      [] op = "depth" -> Refresh([c EXCEPT !.h = v])
      [] op = "width" -> Refresh([c EXCEPT !.n = v])
      [] op = "concentration" -> Refresh([c EXCEPT !.C = v])
      [] op = "bedload" -> [c EXCEPT !.f = v]
      [] op = "sealevel" -> [c EXCEPT !.sl = v]
      [] op = "slr" -> [c EXCEPT !.slr = v]
      [] op = "timestep" -> [c EXCEPT !.dt = v]
      [] OTHER -> c
=============================================================================
