--------------------------------- MODULE Inputs ---------------------------------
(* Inputs of a batch, additional tables and exported tables (property B06).      *)
(* A world is a set of directories, each with entries of a name, a kind (file,   *)
(* directory, file that cannot be read) and a content.  The state of a batch is  *)
(* the bag of its inputs; every way of adding inputs is an action.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

VARIABLES t, l, files
vars == <<t, l, files>>
R(S) == RandomElement(S)

-----------------------------------------------------------------------------
\* names of files: stem and suffix, with the lower case form of the suffix
Stems == {"a", "b", "a.b", "S1_x", "sur", "c d", "10"}
Endings == <<<<".sdf", ".sdf">>, <<".SDF", ".sdf">>, <<".Sdf", ".sdf">>, <<".sur", ".sur">>, <<".SUR", ".sur">>, <<".al3d", ".al3d">>, <<".txt", ".txt">>, <<".sdf.bak", ".bak">>, <<".sdfx", ".sdfx">>, <<"", "">>, <<".TMD", ".tmd">>, <<".xlsx", ".xlsx">>>>
Supported == {".sdf", ".sur", ".al3d", ".tmd"}
Entry(i) == [k \in 1..Len(Endings) |-> [stem |-> R(Stems), suffix |-> Endings[k][1], lower |-> Endings[k][2], kind |-> IF R(1..7) = 1 THEN "dir" ELSE "file"]][R(1..Len(Endings))]
\* requested extensions: text, lower case forms
Exts == <<<<<<>>, <<>>>>, <<<<".sdf">>, <<".sdf">>>>, <<<<".SDF">>, <<".sdf">>>>, <<<<".sdf", ".sur">>, <<".sdf", ".sur">>>>, <<<<".sdf", ".SDF">>, <<".sdf", ".sdf">>>>, <<<<".sur", ".sur">>, <<".sur", ".sur">>>>,
          <<<<".al3d">>, <<".al3d">>>>, <<<<".foo">>, <<".foo">>>>, <<<<".tmd", ".foo", ".al3d">>, <<".tmd", ".foo", ".al3d">>>>>>
Action(i) == [k \in 1..4 |->
    IF k = 1 THEN [op |-> "files", one |-> R(BOOLEAN), list |-> [j \in 1..R(0..3) |-> [dir |-> R(1..2), entry |-> R(1..6)]], as |-> R({"str", "path", "buffer"})]
    ELSE [op |-> "dir", dir |-> R(1..3), as |-> R({"str", "path"}), ext |-> Exts[R(1..Len(Exts))], single |-> R(BOOLEAN)]][R(1..4)]
\* the additional table: rows for some of the names, and for others
Cell(i) == [k \in 1..5 |-> IF k = 1 THEN "" ELSE IF k = 2 THEN "text " \o ToString(R(1..3)) ELSE ToString(R(0..40)) \o (IF k = 3 THEN "" ELSE ".5")][R(1..5)]
GenInit == t = 0 /\ l = 0 /\ files = <<>>
GenNext == l = 0 /\ l' = 1 /\ UNCHANGED <<t, files>> /\
    \E d1 \in {[i \in 1..R(3..6) |-> Entry(i)]} : \E d2 \in {[i \in 1..R(2..6) |-> Entry(i)]} :
    \E n \in {R(0..4)} : \E acts \in {[i \in 1..n |-> Action(i)]} :
    \E m \in {R(0..6)} : \E rows \in {[i \in 1..m |-> [dir |-> R(0..2), entry |-> R(1..6), x |-> Cell(i), y |-> R({"u", "v", "w"})]]} :
        PrintT("@@" \o ToJson([dirs |-> <<d1, d2, <<>>>>, init |-> Action(1), actions |-> acts, table |-> [use |-> R(1..3) # 1, rows |-> rows, order |-> R({"first", "last"})],
               saveto |-> R({"", "new", "old"}), multi |-> R(BOOLEAN), template |-> R(1..4) = 1]))
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
Traces == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ files = <<>>
\* an input is <<name, content>>
Wanted(e, x) == x.kind = "file" /\ (IF e.ext[2] = <<>> THEN x.lower \in Supported ELSE \E i \in 1..Len(e.ext[2]) : e.ext[2][i] = x.lower)
Added(e) == IF e.op = "dir" THEN LET w == SelectSeq(e.entries, LAMBDA x : Wanted(e, x)) IN [i \in 1..Len(w) |-> <<w[i].name, w[i].content>>]
            ELSE [i \in 1..Len(e.list) |-> <<e.list[i].name, e.list[i].content>>]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
\* the row of a file with its own additional values (missing: "") ; e.table is a function given as a list of [file, x, y]
Own(e, name) == LET m == {i \in 1..Len(e.table) : e.table[i].file = name} IN IF m = {} THEN <<"", "">> ELSE LET i == CHOOSE j \in m : TRUE IN <<e.table[i].x, e.table[i].y>>
Verdict(e) ==
    IF e.op # "exec"
    THEN Clause(e.raised = "", "B06:adding_refused") \cup Clause(e.length = Len(files'), "B06:number_of_inputs")
    ELSE IF e.raised # "" THEN {"B06:raised"}
    ELSE LET got == [i \in 1..Len(e.rows) |-> <<e.rows[i].name, e.rows[i].content>>] IN
         Clause(SameBag(got, files), "B06:inputs")
         \cup Clause(~e.hastable \/ \A i \in 1..Len(e.rows) : <<e.rows[i].x, e.rows[i].y>> = Own(e, e.rows[i].name), "B06:additional_values")
         \cup Clause(e.columns, "B06:columns")
         \cup Clause(e.saved, "B06:saved_table") \cup Clause(e.unchanged, "B06:files_changed")
TraceNext ==
    /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET e == Traces[t][l] IN
       /\ files' = IF e.op = "exec" \/ e.raised # "" THEN files ELSE files \o Added(e)
       /\ LET v == Verdict(e) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
