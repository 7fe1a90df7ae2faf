-------------------------------- MODULE Batch --------------------------------
(* Batch processing (properties B01 - B04).                                      *)
(* The state is a batch: its list of registered steps.  Steps are registered one *)
(* after the other (and refused if their columns would collide) and the batch is *)
(* executed any number of times.  Executing it gives one row per file; the value *)
(* in a column is that of its parameter on the topography of the file after the  *)
(* operations that precede it (all operations without chaining order).           *)
(* ref(f, k, p) is the value of parameter p on file f after the first k          *)
(* operations, evaluated directly on Surface: an identifier of the value (equal  *)
(* values, equal identifiers), 0 if missing, or the kind of error.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Focus
VARIABLES t, l, steps
vars == <<t, l, steps>>
R(S) == RandomElement(S)

-----------------------------------------------------------------------------
\* Programs
Op(k, a) == [op |-> "add", kind |-> "op", name |-> k, a |-> a, labels |-> <<>>, custom |-> "", keys |-> <<>>]
CustomOp(k) == [Op(k, 0) EXCEPT !.kind = "cop"]
Par(k, a, c) == [Op(k, a) EXCEPT !.kind = "par", !.custom = c, !.labels = IF k = "depth" THEN <<"mean", "std">> ELSE <<>>]
CustomPar(k, keys) == [Op(k, 0) EXCEPT !.kind = "cpar", !.keys = keys]
Operations == <<Op("zero", 0), Op("center", 0), Op("invert", 0), Op("crop", 0), Op("crop", 1), Op("zoom", 0), Op("threshold", 0), Op("threshold", 1), Op("level", 0),
                Op("detrend_polynomial", 0), Op("filter", 0), Op("filter", 1), Op("remove_outliers", 0), Op("fill_nonmeasured", 0), Op("fill_nonmeasured", 1), Op("align", 0),
                CustomOp("double"), CustomOp("add"), CustomOp("clip"), CustomOp("drop"), CustomOp("opfail")>>
Pattern(c) == [Op(c, 0) EXCEPT !.kind = "pat", !.keys = <<c>>]
Names == <<"", "", "", "roughness", "Sq", "Sa", "depth_mean", "depth", "mean", "file", "low", "Sz ">>
Builtins == <<<<"Sa", 0>>, <<"Sq", 0>>, <<"Sz", 0>>, <<"Sp", 0>>, <<"Ssk", 0>>, <<"Sku", 0>>, <<"Sku", 0>>, <<"depth", 0>>, <<"depth", 0>>, <<"depth", 1>>, <<"Vmc", 0>>, <<"Vmc", 1>>, <<"Vmc", 2>>, <<"Vvv", 1>>,
              <<"Smr", 0>>, <<"Smr", 1>>, <<"Smc", 0>>, <<"Sxp", 0>>, <<"Sdr", 0>>, <<"cavity_volume", 0>>, <<"cavity_volume", 1>>, <<"Sk", 0>>, <<"period", 0>>, <<"homogeneity", 0>>, <<"homogeneity", 1>>>>
Customs == <<CustomPar("mean", <<"mean">>), CustomPar("pair", <<"low", "high">>), CustomPar("shape", <<"rows", "columns">>), CustomPar("text", <<"note">>),
             CustomPar("likeSa", <<"Sa">>), CustomPar("likedepth", <<"depth_std">>), CustomPar("file", <<"file">>), CustomPar("cfail", <<"cfail">>),
             CustomPar("cfail2", <<"c1", "c2">>), CustomPar("nothing", <<>>), CustomPar("high", <<"high">>)>>
\* names that differ from all others, for programs that are not about names
Unique(i) == [k \in 1..9 |-> "name" \o ToString(k)][i]
RandomPar(i) == [b \in 1..Len(Builtins) |-> Par(Builtins[b][1], Builtins[b][2], IF Focus = "B04" THEN Names[R(1..Len(Names))] ELSE IF R(1..4) = 1 THEN "" ELSE Unique(i))][R(1..Len(Builtins))]
Failing(i) == [b \in 1..4 |-> <<Par("Sku", 0, Unique(i)), Par("depth", 0, Unique(i)), CustomPar("cfail", <<"cfail">>), CustomPar("cfail2", <<"c1", "c2">>)>>[b]][R(1..4)]
RandomStep(i) ==
    [o \in 1..12 |->
       IF o <= 4 THEN Operations[R(1..(IF Focus = "B03" /\ R(1..6) = 1 THEN Len(Operations) ELSE Len(Operations) - 1))]
       ELSE IF o <= 8 THEN (IF Focus = "B03" THEN Failing(i) ELSE RandomPar(i))
       ELSE IF o = 9 THEN RandomPar(i)
       ELSE IF o = 10 THEN (IF Focus = "B04" \/ R(1..3) = 1 THEN Customs[R(1..Len(Customs))] ELSE Customs[R(1..4)])
       ELSE IF o = 11 THEN (IF R(1..2) = 1 THEN [op |-> "exec", multi |-> R(BOOLEAN), ignore |-> R(1..3) # 1, preserve |-> R(1..3) # 1, callback |-> R(1..3) # 1]
                            ELSE RandomPar(i))
       ELSE IF Focus = "B04" /\ R(1..2) = 1 THEN Pattern(R({"sample", "kind", "Sa", "low", "depth_mean", "file", "roughness", "Sq"}))
       ELSE (IF R(1..4) = 1 THEN [op |-> "bulk", list |-> R({<<"Sa", "Sq">>, <<"Sp", "Sv", "depth">>, <<"Ssk">>})] ELSE Customs[R(1..4)])][R(1..12)]
\* most parameters refuse topographies with missing points
Filled(prog) == FlattenSeq([i \in 1..Len(prog) |-> IF prog[i].op = "add" /\ R(1..5) # 1 THEN (IF prog[i].name = "threshold" THEN <<prog[i], Op("fill_nonmeasured", 0)>> ELSE <<prog[i]>>) ELSE <<prog[i]>>])
GenInit == t = 0 /\ l = 0 /\ steps = <<>>
GenNext ==
    /\ l = 0 /\ l' = 1 /\ UNCHANGED <<t, steps>>
    /\ \E n \in {R(IF Focus = "B04" THEN 0..6 ELSE 1..7)} : \E m \in {R(IF Focus = "B02" THEN (IF R(1..10) = 1 THEN {33, 40, 47, 70, 101} ELSE {0, 1, 2, 3, 5, 9, 20}) ELSE {1, 2, 3, 4})} :
       \E prog \in {IF m > 20 THEN <<Operations[R({1, 2, 3, 4, 6})], Par("Sa", 0, ""), Par("Sz", 0, "")>> ELSE [i \in 1..n |-> RandomStep(i)]} :
       \E x \in {[op |-> "exec", multi |-> R(1..3) # 1, ignore |-> R(1..3) # 1, preserve |-> R(1..3) # 1, callback |-> R(1..3) # 1]} :
       PrintT("@@" \o ToJson([prog |-> Filled(prog) \o <<x>> \o (IF R(1..2) = 1 THEN <<[x EXCEPT !.multi = ~x.multi]>> ELSE <<>>),
              files |-> [i \in 1..m |-> [k |-> <<1, 2, 3, 4, 6, 1, 2, 3, 4, 6, 5>>[R(1..11)], how |-> R({"str", "path", "path", "buffer", "offset", "same", "shared"})]],
              fails |-> [i \in 1..(IF Focus \in {"B01", "B02"} /\ (m > 20 \/ R(1..8) # 1) THEN 0 ELSE R(0..4)) |-> [k |-> R(1..6), what |-> R({"Sku", "depth", "cfail", "cfail2"}), err |-> R({"calc", "calc", "fit", "value"})]]]))
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
Traces == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ steps = <<>>

IsOp(s) == s.kind \in {"op", "cop"}
Name(s) == IF s.custom = "" THEN s.name ELSE s.custom
Columns(s) == IF s.kind = "par" THEN (IF s.labels = <<>> THEN <<Name(s)>> ELSE [i \in 1..Len(s.labels) |-> Name(s) \o "_" \o s.labels[i]])
              ELSE IF s.kind \in {"cpar", "pat"} THEN s.keys ELSE <<>>
\* of several filename templates the last one counts
Active(st) == LET p == {i \in 1..Len(st) : st[i].kind = "pat"} IN {i \in 1..Len(st) : st[i].kind # "pat" \/ \A j \in p : j <= i}
Patterns(st) == {i \in Active(st) : st[i].kind = "pat"}
ColSet(s) == {Columns(s)[i] : i \in 1..Len(Columns(s))}
\* the same name or custom function twice is refused as well, whatever the columns are
Clash(st) == (\E i, j \in Active(st) : i < j /\ ColSet(st[i]) \cap ColSet(st[j]) # {}) \/ (\E i \in Active(st) : "file" \in ColSet(st[i]))
SameFunction(st) == \E i, j \in 1..Len(st) : i < j /\ st[i].kind = "cpar" /\ st[j].kind = "cpar" /\ st[i].name = st[j].name
SameName(st) == \E i, j \in 1..Len(st) : i < j /\ st[i].kind = "par" /\ st[j].kind = "par" /\ Name(st[i]) = Name(st[j])
NumOps(st) == Len(SelectSeq(st, IsOp))
Pars(st) == {i \in 1..Len(st) : st[i].kind \in {"par", "cpar"}}
\* number of operations that the parameter at position i sees
Seen(st, i, preserve) == IF preserve THEN NumOps(SubSeq(st, 1, i)) ELSE NumOps(st)

\* the recorded direct evaluations: e.ref[f][k + 1] is [err, vals], vals[i] the values of the parameter at position i in the order of its columns
Ref(e, f, st, i) == e.ref[f][Seen(st, i, e.preserve) + 1].p[i]
OpFails(e, f, st) == \E k \in 1..Len(e.ref[f]) : e.ref[f][k].err
Errs(e, st) == {Ref(e, f, st, i).err : f \in 1..Len(e.ref), i \in Pars(st)} \ {""}
\* the value in a column for a file: 0 is missing
Expected(e, f, st, pats) == [c \in UNION {ColSet(st[i]) : i \in Pars(st) \cup pats} |->
    IF \E j \in pats : c \in ColSet(st[j]) THEN e.nameids[f] ELSE
    LET i == CHOOSE j \in Pars(st) : c \in ColSet(st[j]) r == Ref(e, f, st, i)
    IN IF r.err # "" THEN 0 ELSE LET k == CHOOSE m \in 1..Len(Columns(st[i])) : Columns(st[i])[m] = c IN r.v[k]]
Cell(row, c) == LET m == {k \in 1..Len(row.c) : row.c[k] = c} IN IF m = {} THEN 0 ELSE row.v[CHOOSE k \in m : TRUE]
RowIs(row, name, x) == row.name = name /\ \A c \in DOMAIN x : Cell(row, c) = x[c]
\* as bags: every expected row occurs as often as it is expected
SameRows(rows, e, st, pats) ==
    LET x == [f \in 1..Len(e.ref) |-> Expected(e, f, st, pats)] IN
    /\ Len(rows) = Len(e.names)
    /\ \A f \in 1..Len(e.names) : Cardinality({k \in 1..Len(rows) : RowIs(rows[k], e.names[f], x[f])}) = Cardinality({g \in 1..Len(e.names) : e.names[g] = e.names[f] /\ x[g] = x[f]})
SameNames(rows, e) == Len(rows) = Len(e.names) /\ \A f \in 1..Len(e.names) :
    Cardinality({k \in 1..Len(rows) : rows[k].name = e.names[f]}) = Cardinality({g \in 1..Len(e.names) : e.names[g] = e.names[f]})
RowColumns(rows) == UNION {{rows[k].c[i] : i \in 1..Len(rows[k].c)} : k \in 1..Len(rows)}

ExecVerdict(e, st) ==
    LET none == Len(e.names) = 0
        errs == Errs(e, st)
        opf == \E f \in 1..Len(e.ref) : OpFails(e, f, st)
    IN Clause(e.unchanged, "B01:files_changed")
       \cup Clause(e.earlier, "B01:earlier_results_changed")
       \cup (IF e.callback THEN Clause(\A f \in 1..Len(e.names) : Cardinality({k \in 1..Len(e.called) : e.called[k].name = e.names[f]}) <= Cardinality({g \in 1..Len(e.names) : e.names[g] = e.names[f]}), "B02:callback_repeated")
             ELSE Clause(Len(e.called) = 0, "B02:callback_not_given"))
       \cup IF \A i \in 1..Len(st) : st[i].kind = "pat" THEN Clause(e.raised # "", "B04:no_steps_accepted")
            ELSE IF Clash(st) THEN Clause(e.raised # "" \/ none, "B04:collision_accepted")
            ELSE IF opf THEN Clause(e.raised # "", "B03:failing_operation_ignored")
            ELSE IF ~e.ignore /\ errs # {} THEN Clause(e.raised # "", "B03:error_swallowed")
            ELSE IF e.raised # "" THEN (IF errs = {} THEN {"B01:raised", "B02:raised"} ELSE IF errs = {"calc"} THEN {"B03:raised_although_ignored"} ELSE {})
            ELSE LET x == UNION {ColSet(st[i]) : i \in Pars(st) \cup Patterns(st)}
                     same == SameRows(e.rows, e, st, Patterns(st)) IN
                 Clause(SameNames(e.rows, e), "B02:rows")
                 \cup Clause(none \/ \A c \in x : c \in RowColumns(e.rows) \/ \A f \in 1..Len(e.names) : Expected(e, f, st, Patterns(st))[c] = 0, "B04:column_missing")
                 \cup Clause(RowColumns(e.rows) \subseteq x, "B04:unexpected_column")
                 \cup (IF same \/ ~SameNames(e.rows, e) THEN {} ELSE IF errs # {} THEN {"B03:values"} ELSE {"B01:values", "B02:values", "B04:values"})
                 \cup (IF e.callback THEN Clause(SameRows(e.called, e, st, {}), "B02:callback") ELSE {})
TraceNext ==
    /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET e == Traces[t][l] IN
       /\ steps' = IF e.op = "add" /\ ~e.refused THEN Append(steps, e) ELSE steps
       /\ LET v == IF e.op = "add" THEN Clause(~e.refused \/ Clash(Append(steps, e)) \/ SameFunction(Append(steps, e)) \/ SameName(Append(steps, e)), "B04:needless_refusal")
                                        \cup Clause(~e.refused \/ e.batcherror, "B04:wrong_error")
                   ELSE ExecVerdict(e, steps)
          IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
