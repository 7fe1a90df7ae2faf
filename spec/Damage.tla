-------------------------------- MODULE Damage --------------------------------
(* Files that end early and saves that fail (property F06).                      *)
(* Writing a file is a sequence of bytes that can stop after any of them; what   *)
(* is left is a prefix.  A load of a prefix is refused or gives exactly the      *)
(* surface of the intact file.  A state of the specification is the life of one  *)
(* path: absent, old, partial (k bytes of the new content), complete.            *)
EXTENDS Layouts, Json, IOUtils

CONSTANTS NRecords
VARIABLES t, l, file
vars == <<t, l, file>>

\* formats that state the number of their points and are read to the end of the data
Sized_ == {FormatNames[i] : i \in 1..Len(FormatNames)} \ {"xyz"}
Written == <<"al3d", "sdf", "sdfascii", "sflz", "sflzlzma", "sflzzlib", "sur", "surz", "tmd">>
Failing == <<"baddtype", "badcompression", "badformat", "badcomment", "toolarge", "nospacing", "badsymbol">>
GenInit == t = 0 /\ l = 0 /\ file = ""
GenNext == /\ l = 0 /\ l' = 1 /\ UNCHANGED <<t, file>>
           /\ PrintT("@@" \o ToJson([records |-> {[fmt |-> f, n |-> n] : f \in Sized_, n \in 1..NRecords},
                 written |-> {[fmt |-> Written[i], n |-> n] : i \in 1..Len(Written), n \in 1..NRecords},
                 failing |-> {[how |-> Failing[i], target |-> g, old |-> o] : i \in 1..Len(Failing), g \in {"str", "path"}, o \in {"absent", "garbage", "surface"}}]))
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
Traces == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ file = ""
After(e) == CASE e.op = "old" -> e.old          \* what is there before: absent, garbage or surface
              [] e.op = "complete" -> "complete"
              [] e.op = "cut" -> "partial"
              [] e.op = "failsave" -> file      \* a failing save changes nothing
\* FITS does not state the number of extensions: a file that ends after one of them is a valid file without the others
StillComplete(e) == e.fmt = "fits" /\ e.k % 2880 = 0
Verdict(e) ==
    CASE e.op = "complete" -> Clause(e.outcome = "intact", "F06:" \o e.fmt \o ":intact_file_refused")
      [] e.op = "cut" -> Clause(e.outcome \in {"refused", "intact"} \/ StillComplete(e), "F06:" \o e.fmt \o ":misread")
                         \cup Clause(e.handles = 0, "F06:" \o e.fmt \o ":open_handles")
                         \cup Clause(e.later, "F06:" \o e.fmt \o ":later_load_affected")
      [] e.op = "failsave" -> Clause(e.outcome = "refused", "F06:failsave:accepted")
                              \cup Clause(e.now = file, "F06:failsave:file_changed")
                              \cup Clause(e.handles = 0, "F06:failsave:open_handles")
      [] OTHER -> {}
TraceNext == /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
             /\ LET e == Traces[t][l] IN
                /\ file' = After(e)
                /\ LET v == Verdict(e) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
