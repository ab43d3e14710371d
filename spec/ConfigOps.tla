----------------------------- MODULE ConfigOps ------------------------------
(* How a parameter gets its value: keyword over file over default, types    *)
(* and ranges. The table is the documented one (types, defaults, ranges);   *)
(* the last four rows are the parameters of the subclass used in the check. *)
(* Values are tokens: numbers as floats, "True", "None", "s:" \o string.    *)
EXTENDS Integers, Sequences, FiniteSets

P(k, t, d, r) == [k |-> k, types |-> t, def |-> d, range |-> r]
Table == <<
   P("out_dir", {"str"}, "s:deltaRCM_Output", "any"),
   P("verbose", {"int"}, "0.0", "any"),
   P("seed", {"int", "None"}, "None", "any"),
   P("Length", {"float", "int"}, "5000.0", "pos"),
   P("Width", {"float", "int"}, "10000.0", "pos"),
   P("dx", {"float", "int"}, "50.0", "pos"),
   P("L0_meters", {"float", "int"}, "150.0", "nonneg"),
   P("S0", {"float", "int"}, "0.00015", "any"),
   P("itermax", {"int"}, "3.0", "nonneg"),
   P("Np_water", {"int"}, "2000.0", "pos"),
   P("u0", {"float", "int"}, "1.0", "any"),
   P("N0_meters", {"float", "int"}, "250.0", "pos"),
   P("h0", {"float", "int"}, "5.0", "any"),
   P("hb", {"float", "int", "None"}, "None", "any"),
   P("H_SL", {"float", "int"}, "0.0", "any"),
   P("SLR", {"float", "int"}, "0.0", "any"),
   P("Np_sed", {"int"}, "2000.0", "pos"),
   P("f_bedload", {"float", "int"}, "0.5", "unit"),
   P("active_layer_thickness", {"float", "int", "None"}, "None", "nonneg"),
   P("C0_percent", {"float", "int"}, "0.1", "nonneg"),
   P("Csmooth", {"float", "int"}, "0.9", "nonneg"),
   P("toggle_subsidence", {"bool"}, "False", "any"),
   P("subsidence_rate", {"float", "int"}, "2e-09", "any"),
   P("start_subsidence", {"float", "int"}, "216000.0", "any"),
   P("save_eta_figs", {"bool"}, "False", "any"),
   P("save_stage_figs", {"bool"}, "False", "any"),
   P("save_depth_figs", {"bool"}, "False", "any"),
   P("save_discharge_figs", {"bool"}, "False", "any"),
   P("save_velocity_figs", {"bool"}, "False", "any"),
   P("save_sedflux_figs", {"bool"}, "False", "any"),
   P("save_sandfrac_figs", {"bool"}, "False", "any"),
   P("save_figs_sequential", {"bool"}, "True", "any"),
   P("save_metadata", {"bool"}, "False", "any"),
   P("save_eta_grids", {"bool"}, "False", "any"),
   P("save_stage_grids", {"bool"}, "False", "any"),
   P("save_depth_grids", {"bool"}, "False", "any"),
   P("save_discharge_grids", {"bool"}, "False", "any"),
   P("save_velocity_grids", {"bool"}, "False", "any"),
   P("save_sedflux_grids", {"bool"}, "False", "any"),
   P("save_sandfrac_grids", {"bool"}, "False", "any"),
   P("save_discharge_components", {"bool"}, "False", "any"),
   P("save_velocity_components", {"bool"}, "False", "any"),
   P("save_dt", {"int"}, "86400.0", "any"),
   P("checkpoint_dt", {"int", "None"}, "None", "any"),
   P("save_checkpoint", {"bool"}, "False", "any"),
   P("resume_checkpoint", {"bool", "str"}, "False", "any"),
   P("omega_sfc", {"float", "int"}, "0.1", "any"),
   P("omega_flow", {"float", "int"}, "0.9", "any"),
   P("Nsmooth", {"int"}, "10.0", "any"),
   P("theta_water", {"float", "int"}, "1.0", "any"),
   P("coeff_theta_sand", {"float", "int"}, "2.0", "any"),
   P("coeff_theta_mud", {"float", "int"}, "1.0", "any"),
   P("beta", {"int"}, "3.0", "any"),
   P("sed_lag", {"float", "int"}, "1.0", "any"),
   P("coeff_U_dep_mud", {"float", "int"}, "0.3", "any"),
   P("coeff_U_ero_mud", {"float", "int"}, "1.5", "any"),
   P("coeff_U_ero_sand", {"float", "int"}, "1.05", "any"),
   P("alpha", {"float", "int"}, "0.1", "any"),
   P("stepmax", {"float", "int", "None"}, "None", "any"),
   P("sand_frac_bc", {"float", "int"}, "0.0", "any"),
   P("clobber_netcdf", {"bool"}, "False", "any"),
   P("legacy_netcdf", {"bool"}, "False", "any"),
   P("sub_number", {"float", "int"}, "4.5", "any"),
   P("sub_flag", {"bool"}, "True", "any"),
   P("sub_maybe", {"int", "None"}, "None", "any"),
   P("sub_text", {"str"}, "s:abc", "any")
>>
Names == {Table[i].k : i \in 1..Len(Table)}
Row(k) == Table[CHOOSE i \in 1..Len(Table) : Table[i].k = k]

(* a source of a value: [given, type, tok, neg, zero, gt1, over] *)
Winner(it) == IF it.kw.given THEN it.kw ELSE it.file
Given(it) == it.kw.given \/ it.file.given
TypeOK(it) == Given(it) => Winner(it).type \in Row(it.k).types
InRange(r, w) ==
      CASE r = "pos"    -> ~w.neg /\ ~w.zero /\ ~w.over   \* (dx: over the domain)
        [] r = "nonneg" -> ~w.neg
        [] r = "unit"   -> ~w.neg /\ ~w.gt1
        [] r = "share"  -> ~w.neg /\ ~w.zero /\ ~w.gt1
        [] OTHER        -> TRUE
RangeOK(it) == (Given(it) /\ Winner(it).type \in {"int", "float"}) => InRange(Row(it.k).range, Winner(it))
\* assignment to a model that lives (If, the intermittency, is no input of the model)
SetOK(k, w) == InRange(IF k = "If" THEN "share" ELSE Row(k).range, w)

Outcome(items) ==
    IF \E i \in 1..Len(items) : ~TypeOK(items[i]) THEN "TypeError"
    ELSE IF \E i \in 1..Len(items) : ~RangeOK(items[i]) THEN "ValueError"
    ELSE "accepted"

\* what the model must expose; null stands for a value derived from others
Resolved(it) ==
    LET v == IF Given(it) THEN Winner(it).tok ELSE Row(it.k).def IN
    IF v = "None" /\ it.nullMeans # "" THEN it.nullMeans ELSE v
=============================================================================
