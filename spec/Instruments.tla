-------------------------------- MODULE Instruments --------------------------------
(* Property F04: what instrument files mean.  The generator draws records of every   *)
(* format (Layouts); a trace is one file that is loaded without and with its image   *)
(* layers, once from a path and once from a buffer; the recorded topographies are    *)
(* judged against the meaning that the layout states.  F07: every text, number and   *)
(* moment that the file states about the measurement is in the metadata.             *)
EXTENDS Layouts, Json, IOUtils

VARIABLES t, l, done
vars == <<t, l, done>>

GenInit == t = 0 /\ l = 0 /\ done = FALSE
GenNext ==
    /\ ~done /\ done' = TRUE /\ UNCHANGED <<t, l>>
    /\ \E f \in {FormatNames[R(1..Len(FormatNames))]} : \E big \in {[i \in 1..60 |-> IF i < 3 THEN i ELSE 0][R(1..60)]} :
       \E ny \in {IF big = 1 THEN R(257..262) ELSE R(1..5)} : \E nx \in {IF big = 2 THEN R(257..300) ELSE R(1..5)} : \E style \in {R(1..5)} :
       \E d \in {[i \in 1..30 |-> IF i = 17 /\ IOEnv.META = "plain" THEN 1 ELSE R(0..59)]} :
       \E g \in {[i \in 1..ny |-> [j \in 1..nx |->
            CASE style = 1 -> R(-900..900) [] style = 2 -> (IF R(1..4) = 1 THEN NaN ELSE R(-900..900)) [] style = 3 -> (IF i = 1 THEN NaN ELSE R(0..1))
              [] style = 4 -> 100 * i + j [] style = 5 -> (IF i = ny /\ j = nx THEN NaN ELSE 900)]]} :
       PrintT("@@" \o ToJson(Record(f, g, d)))
GenSpec == GenInit /\ [][GenNext]_vars

Traces == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ done = FALSE
\* the first event is the meaning, every other one a load
Missing(g) == [i \in 1..NRows(g) |-> [j \in 1..NCols(g) |-> IF g[i][j] = NaN THEN 1 ELSE 0]]
LayerSet(s) == {s[i] : i \in 1..Len(s)}
Verdict(m, e) ==
    IF e.err # "" THEN {"F04:" \o m.fmt \o ":raised"}
    ELSE Clause(e.missing = Missing(m.g), "F04:" \o m.fmt \o ":shape_or_missing")
         \cup Clause(e.dev <= 1000, "F04:" \o m.fmt \o ":heights")
         \cup Clause(e.dsx <= 1000 /\ e.dsy <= 1000, "F04:" \o m.fmt \o ":spacing")
         \cup Clause(LayerSet(e.layers) = (IF e.requested THEN LayerSet(m.layers) ELSE {}) /\ Len(e.layers) = Cardinality(LayerSet(e.layers)), "F04:" \o m.fmt \o ":image_layers")
\* what the surface says under the names of the file
Told(w, o) == CASE w.t = "text" -> o.t = "text" /\ o.v = w.v
                [] w.t = "num" -> o.t = "num" /\ o.dev <= 1000
                [] w.t = "time" -> o.t = "time" /\ o.v = w.v
                [] w.t = "date" -> (o.t = "time" /\ o.v = w.v) \/ (o.t = "text" /\ o.v = w.w)
MetaVerdict(m, e) ==
    IF e.err # "" THEN {"F07:" \o m.fmt \o ":raised"}
    ELSE {"F07:" \o m.fmt \o ":" \o m.meta[i].k : i \in {i \in 1..Len(m.meta) : ~Told(m.meta[i], e.meta[i])}}
TraceNext == /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED <<t, done>>
             /\ IF l = 1 THEN TRUE
                ELSE LET v == IF Traces[t][1].about = "F07" THEN MetaVerdict(Traces[t][1], Traces[t][l]) ELSE Verdict(Traces[t][1], Traces[t][l]) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
