-------------------------------- MODULE Buffers --------------------------------
(* Buffers behave like files (property F03).                                     *)
(* The state of a buffer is its length, its position and the records in it (a    *)
(* record is the complete content of a file, written by a save or put there).    *)
(*   put/save at position p overlay the bytes from p on, nothing else;           *)
(*   load at p is the load of a file that consists of the bytes from p on: the   *)
(*   record at p if it is intact and the last thing in the buffer;               *)
(*   loads and saves, failing or not, keep the position and leave it open.       *)
EXTENDS Layouts, Json, IOUtils

VARIABLES t, l, len, pos, recs
vars == <<t, l, len, pos, recs>>

Kinds == <<"bytesio", "bytesio", "file", "raw", "spooled", "random">>
SaveFormats == <<"al3d", "sdf", "sdfascii", "sflz", "sflzlzma", "sur", "surz", "tmd">>
Failing == <<"baddtype", "badcompression", "badformat", "badcomment", "nospacing">>
-----------------------------------------------------------------------------
GenInit == t = 0 /\ l = 0 /\ len = 0 /\ pos = 0 /\ recs = <<>>
Step(i) == [o \in 1..20 |->
    IF o <= 4 THEN [op |-> "save", f |-> SaveFormats[R(1..8)], a |-> R(1..3), b |-> 0]
    ELSE IF o = 5 THEN [op |-> "failsave", f |-> Failing[R(1..5)], a |-> R(1..3), b |-> 0]
    ELSE IF o <= 8 THEN [op |-> "put", f |-> FormatNames[R(1..Len(FormatNames))], a |-> R(1..2), b |-> 0]
    ELSE IF o <= 10 THEN [op |-> "seekrecord", f |-> "", a |-> R(1..6), b |-> R({0, 0, 0, 0, 1, 4, -1, 37})]
    ELSE IF o <= 13 THEN [op |-> "seeklast", f |-> "", a |-> R(0..2), b |-> 0]
    ELSE IF o = 14 THEN [op |-> "seekend", f |-> "", a |-> R({0, 0, 1, 5}), b |-> 0]
    ELSE IF o = 15 THEN [op |-> "seekpos", f |-> "", a |-> R(0..3000), b |-> 0]
    ELSE [op |-> "load", f |-> IF o <= 18 THEN "own" ELSE IF o = 19 THEN "none" ELSE FormatNames[R(1..Len(FormatNames))], a |-> R(0..1), b |-> 0]][R(1..20)]
GenNext == /\ l = 0 /\ l' = 1 /\ UNCHANGED <<t, len, pos, recs>>
           /\ \E n \in {R(4..14)} : \E steps \in {[i \in 1..n |-> Step(i)]} : PrintT("@@" \o ToJson([kind |-> Kinds[R(1..Len(Kinds))], offset |-> R({0, 0, 0, 3, 100}), steps |-> steps]))
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
Traces == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ len = 0 /\ pos = 0 /\ recs = <<>>

Rec(id, p, n) == [id |-> id, at |-> p, n |-> n]
Overlaps(r, p, n) == r.at < p + n /\ p < r.at + r.n
\* a record is lost as soon as any of its bytes is overlaid
Overlay(s, id, p, n) == Append(SelectSeq(s, LAMBDA r : ~Overlaps(r, p, n)), Rec(id, p, n))
\* the record that a load at p has to give (0: not determined by the records)
At0(s, p, n) == LET m == SelectSeq(s, LAMBDA r : r.at = p /\ r.at + r.n = n) IN IF Len(m) = 0 THEN 0 ELSE m[1].id

After(e) ==
    CASE e.op = "create" -> [len |-> e.n, pos |-> e.n, recs |-> <<>>]
      [] e.op = "seek" -> [len |-> len, pos |-> e.to, recs |-> recs]
      [] e.op \in {"save", "put"} -> [len |-> Max2(len, pos + e.n), pos |-> IF e.op = "put" THEN pos + e.n ELSE pos, recs |-> Overlay(recs, e.id, pos, e.n)]
      [] e.op \in {"load", "failsave"} -> [len |-> len, pos |-> pos, recs |-> recs]
Verdict(e, s) ==
    Clause(e.open, "F03:" \o e.op \o ":closed")
    \cup Clause(~e.open \/ e.pos = s.pos, "F03:" \o e.op \o ":position")
    \cup Clause(~e.open \/ e.len = s.len, "F03:" \o e.op \o ":length")
    \cup CASE e.op = "save" -> Clause(e.err = "", "F03:save:raised") \cup Clause(e.err # "" \/ e.bytes, "F03:save:not_the_bytes_of_a_file")
           [] e.op = "failsave" -> Clause(e.err # "", "F03:failsave:accepted") \cup Clause(e.bytes, "F03:failsave:buffer_changed")
           [] e.op = "load" -> LET id == At0(recs, pos, len) IN
                 Clause(e.bytes, "F03:load:buffer_changed")
                 \cup Clause(e.asfile, "F03:load:differs_from_file")
                 \cup Clause(e.again, "F03:load:second_load_differs")
                 \cup Clause(id = 0 \/ ~e.own \/ e.got = id, IF e.err # "" THEN "F03:load:record_refused" ELSE "F03:load:wrong_record")
           [] OTHER -> {}
TraceNext ==
    /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
    /\ LET e == Traces[t][l] IN
       \E s \in {After(e)} :
          /\ len' = s.len /\ pos' = s.pos /\ recs' = s.recs
          /\ LET v == Verdict(e, s) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
