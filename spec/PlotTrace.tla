------------------------------ MODULE PlotTrace -----------------------------
(* Diagnostic plots of the implementation. Positions come in tenths of a    *)
(* cell, values of fields in 1/1000; a hidden vertex is <<-10, -10>>.       *)
EXTENDS PlotOps, TraceLib
VARIABLES l, bad
TInit == l = 1 /\ bad = {}
Ten(s) == [i \in 1..Len(s) |-> <<10 * s[i][1], 10 * s[i][2]>>]
Bag(s) == [x \in ToSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Common(e) ==
    {<<"C21:draws-only-where-told", e.elsewhere = 0>>,
     <<"C21:leaves-the-model-alone", ~e.changed>>}
IndClauses(e) ==
    IF ~e.valid THEN {<<"C21:refuses-what-is-no-cell", e.outcome \in {"ValueError", "IndexError"}>>}
    ELSE {<<"C21:cells-are-shown", e.outcome = "ok">>,
          <<"C21:marks-exactly-the-cells-given",
            e.outcome = "ok" => Bag(FlattenSeq(e.lines)) = Bag(Ten(Marks(e.cells, e.W)))>>,
          <<"C21:marks-styled-as-asked",
            e.outcome = "ok" /\ e.style # "" => \A i \in 1..Len(e.markers) : e.markers[i] = e.style>>}
LineClauses(e) ==
    LET exp == Lines(e.form, e.data, e.W, e.nozeros) IN
    {<<"C21:lines-are-shown", e.outcome = "ok">>,
     <<"C21:draws-every-line-through-its-cells-in-order",
       e.outcome = "ok" => (Len(e.lines) = Len(exp) /\ \A i \in 1..Len(exp) : e.lines[i] = Ten(exp[i]))>>,
     <<"C21:returns-every-line-drawn", e.outcome = "ok" => e.returned = Len(exp)>>}
FieldClauses(e) ==
    IF e.kind = "field"
    THEN {<<"C21:fields-are-shown", e.outcome = "ok">>,
          <<"C21:shows-exactly-the-field", e.outcome = "ok" => e.images = <<e.field>>>>,
          <<"C21:field-lies-on-its-cells", e.outcome = "ok" => e.extent = Extent(e.L, e.W)>>}
    ELSE {<<"C21:refuses-what-is-no-field",
            e.outcome = CASE e.kind = "notext" -> "TypeError" [] e.kind = "scalar" -> "TypeError"
                          [] e.kind = "vector" -> "ValueError" [] OTHER -> "AttributeError">>}
FigClauses(e) ==
    {<<"C21:figures-are-made", e.outcome = "ok">>,
     <<"C21:figure-shows-exactly-the-field", e.outcome = "ok" => e.images = <<e.field>>>>,
     <<"C21:figure-lies-on-the-grid",
       e.outcome = "ok" => \A r \in 0..e.L, c \in 0..e.W : e.mesh[r + 1][c + 1] = <<c * e.dx, r * e.dx>>>>,
     <<"C21:figure-named-by-variable-and-time", e.outcome = "ok" => e.titled>>}
Step(e) ==
  CASE e.ev = "begin" -> {}
    [] e.ev = "ind" -> IndClauses(e) \cup Common(e)
    [] e.ev = "line" -> LineClauses(e) \cup Common(e)
    [] e.ev = "field" -> FieldClauses(e) \cup Common(e)
    [] e.ev = "fig" -> FigClauses(e) \cup Common(e)
    [] e.ev = "error" -> {<<"no-failure:" \o e.exc, FALSE>>}
    [] OTHER -> {<<"unknown-event", FALSE>>}
TNext ==
  \/ /\ l <= Len(Trace)
     /\ bad' = bad \cup {[at |-> l, clause |-> x] : x \in Fails(Step(Trace[l]))}
     /\ l' = l + 1
  \/ l = Len(Trace) + 1 /\ WriteVerdict(bad) /\ l' = l + 1 /\ UNCHANGED bad
TSpec == TInit /\ [][TNext]_<<l, bad>>
=============================================================================
