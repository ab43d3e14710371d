----------------------------- MODULE OutputOps ------------------------------
(* What goes into the output file and the figures, and when.                *)
(*                                                                          *)
(* An option record o has: on (the set of save_* options switched on),      *)
(* legacy, custom (a subclass adds a grid, fixed and time-varying metadata  *)
(* and a figure of its own), sub (subsidence on), seqfig (numbered figures).*)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* option -> variables it asks for: <<name in the file, model field, units>> *)
GridTable ==
  [save_eta_grids       |-> {<<"eta", "eta", "meters">>},
   save_stage_grids     |-> {<<"stage", "stage", "meters">>},
   save_depth_grids     |-> {<<"depth", "depth", "meters">>},
   save_discharge_grids |-> {<<"discharge", "qw", "cubic meters per second">>},
   save_velocity_grids  |-> {<<"velocity", "uw", "meters per second">>},
   save_sedflux_grids   |-> {<<"sedflux", "qs", "cubic meters per second">>},
   save_sandfrac_grids  |-> {<<"sandfrac", "sand_frac", "fraction">>},
   save_discharge_components |-> {<<"discharge_x", "qx", "cubic meters per second">>,
                                  <<"discharge_y", "qy", "cubic meters per second">>},
   save_velocity_components  |-> {<<"velocity_x", "ux", "meters per second">>,
                                  <<"velocity_y", "uy", "meters per second">>}]
GridOpts == DOMAIN GridTable

FigTable ==   \* option -> <<file name root, field>>
  [save_eta_figs |-> <<"eta", "eta">>, save_stage_figs |-> <<"stage", "stage">>,
   save_depth_figs |-> <<"depth", "depth">>, save_discharge_figs |-> <<"discharge", "qw">>,
   save_velocity_figs |-> <<"velocity", "uw">>, save_sedflux_figs |-> <<"sedflux", "qs">>,
   save_sandfrac_figs |-> <<"sandfrac", "sand_frac">>]
FigOpts == DOMAIN FigTable

AnyGrid(o)  == o.on \cap GridOpts # {}
HasFile(o)  == AnyGrid(o) \/ "save_metadata" \in o.on

Dims(o)  == IF o.legacy THEN <<"total_time", "length", "width">> ELSE <<"time", "x", "y">>
Dims2(o) == <<Dims(o)[2], Dims(o)[3]>>
Dims1(o) == <<Dims(o)[1]>>

V(n, f, u, t, d) == [name |-> n, field |-> f, units |-> u, type |-> t, dims |-> d]

\* variables with one entry per record
RecVars(o) ==
    {V(g[1], g[2], g[3], "float32", Dims(o)) :
        g \in UNION {GridTable[x] : x \in o.on \cap GridOpts}}
    \cup (IF HasFile(o)
          THEN {V("time", "time", "second", "float32", Dims1(o)),
                V("meta/H_SL", "H_SL", "meters", "float32", Dims1(o)),
                V("meta/f_bedload", "f_bedload", "fraction", "float32", Dims1(o)),
                V("meta/C0_percent", "C0_percent", "percent", "float32", Dims1(o)),
                V("meta/u0", "u0", "meters per second", "float32", Dims1(o))}
          ELSE {})
    \cup (IF HasFile(o) /\ o.custom
          THEN {V("actlay", "active_layer", "fraction", "float32", Dims(o)),
                V("meta/my_scalar", "my_scalar", "furlongs", "float32", Dims1(o))}
          ELSE {})

\* variables written once
FixVars(o) ==
    IF ~HasFile(o) THEN {} ELSE
    (IF o.legacy
     THEN {V("x", "x", "meter", "float32", Dims2(o)), V("y", "y", "meter", "float32", Dims2(o))}
     ELSE {V("x", "xc", "meter", "float32", <<"x">>), V("y", "yc", "meter", "float32", <<"y">>)})
    \cup {V("meta/L0", "L0", "cells", "int64", <<>>), V("meta/N0", "N0", "cells", "int64", <<>>),
          V("meta/CTR", "CTR", "cells", "int64", <<>>), V("meta/dx", "dx", "meters", "float32", <<>>),
          V("meta/h0", "h0", "meters", "float32", <<>>), V("meta/hb", "hb", "meters", "float32", <<>>),
          V("meta/cell_type", "cell_type", "type", "int64", Dims2(o))}
    \cup (IF o.sub
          THEN {V("meta/start_subsidence", "start_subsidence", "seconds", "int64", <<>>),
                V("meta/sigma", "sigma", "meters per timestep", "float32", Dims2(o))}
          ELSE {})
    \cup (IF o.custom THEN {V("meta/water_parcels", "Np_water", "parcels", "int64", <<>>)} ELSE {})

AllVars(o) == RecVars(o) \cup FixVars(o)

\* figures <<root, field>> asked for
Figs(o) == {FigTable[x] : x \in o.on \cap FigOpts}
           \cup (IF o.custom THEN {<<"mylayer", "active_layer">>} ELSE {})

Pad5(n) == LET s == ToString(n) IN
           IF n < 10 THEN "0000" \o s ELSE IF n < 100 THEN "000" \o s
           ELSE IF n < 1000 THEN "00" \o s ELSE IF n < 10000 THEN "0" \o s ELSE s
FigFile(o, root, k) ==
    root \o "_" \o (IF o.seqfig THEN Pad5(k) ELSE "latest") \o ".png"

(* ------------------------------ the schedule ----------------------------- *)
INF == 1900000000
Blank == [t |-> 0, it |-> 0, sd |-> INF, si |-> 0, recs |-> <<>>, files |-> {}]

Due(o, s) == s.sd >= o.save

\* one record, holding a snapshot of the model (mem), and the figures
Output(o, s, mem) ==
    IF Due(o, s)
    THEN [s EXCEPT !.recs = Append(@, mem), !.si = @ + 1, !.sd = 0,
                   !.files = @ \cup {FigFile(o, f[1], s.si) : f \in Figs(o)}]
    ELSE s
Advance(o, s) == [s EXCEPT !.t = @ + o.dt, !.it = @ + 1,
                           !.sd = IF @ >= INF THEN INF ELSE @ + o.dt]
=============================================================================
