------------------------------- MODULE Archive -------------------------------
(* Extracting the measurements of an archive (property F08).                  *)
(* An archive holds measurements, each in a folder of its own, other files    *)
(* and an index that says under which name each measurement was recorded.     *)
(* Two measurements can have been recorded under the same name in different   *)
(* places.  Extraction writes one file after the other:                       *)
(*   no measurement is lost - each one written so far is in a file of its own *)
(*   a measurement has its name, as far as no other one has it                *)
(*   nothing else is written.                                                 *)
(* The naive design (each measurement into the file of its name) and the one  *)
(* that numbers repeated names without regard to the names still to come are  *)
(* refuted.  The trace part judges what the implementation leaves behind.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Design     \* "naive", "numbered" or "reserved"

\* names of the design: a name is <<stem, number>>, the number 0 for an original name, and the original name <<1, 1>> that
\* looks like a numbered one
Names == {<<1, 0>>, <<2, 0>>, <<1, 1>>}
VARIABLES todo, done, files, t, l
vars == <<todo, done, files, t, l>>
\* files: the set of <<name, measurement>> in the target
MaxN == 3
Init == /\ \E n \in 0..MaxN : todo \in [1..n -> Names]
        /\ done = <<>> /\ files = {} /\ t = 0 /\ l = 0
Taken == {f[1] : f \in files}
Original == {todo[i] : i \in 1..Len(todo)} \cup {done[i] : i \in 1..Len(done)}
Free(name) ==
    IF Design = "naive" \/ name \notin Taken THEN name
    ELSE LET Candidate(k) == <<name[1], name[2] + k>>
             Bad == IF Design = "numbered" THEN Taken ELSE Taken \cup Original
             k == CHOOSE k \in 1..10 : Candidate(k) \notin Bad /\ \A j \in 1..(k - 1) : Candidate(j) \in Bad
         IN  Candidate(k)
Write == /\ Len(todo) > 0
         /\ LET name == Free(Head(todo)) IN
            files' = {f \in files : f[1] # name} \cup {<<name, Len(done) + 1>>}
         /\ done' = Append(done, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<t, l>>
Next == Write
Spec == Init /\ [][Next]_vars
NothingLost == \A i \in 1..Len(done) : Cardinality({f \in files : f[2] = i}) = 1
NothingElse == Cardinality(files) <= Len(done)
OwnName == Len(todo) = 0 =>
    \A i \in 1..Len(done) : (\A j \in 1..Len(done) : j # i => done[j] # done[i]) => <<done[i], i>> \in files
\* one of several measurements of the same name has it
SomeName == Len(todo) = 0 => \A i \in 1..Len(done) : \E j \in 1..Len(done) : done[j] = done[i] /\ <<done[i], j>> \in files

-----------------------------------------------------------------------------
R(S) == RandomElement(S)
\* kinds of measurements, other files and places; the driver knows the texts of the names (1..NN)
GenInit == todo = <<>> /\ done = <<>> /\ files = {} /\ t = 0 /\ l = 0
GenNext ==
    /\ l = 0 /\ l' = 1 /\ UNCHANGED <<todo, done, files, t>>
    /\ \E n \in {R(0..5)} : \E same \in {R(BOOLEAN)} :
       \E ms \in {[i \in 1..n |-> [name |-> R(1..(IF same THEN 3 ELSE atoi(IOEnv.NN))), kind |-> R({"VK3", "VK4", "VK6", "VK7"}), size |-> R({0, 1, 5, 300, 70000}),
                                   place |-> R({"win", "unix", "bare"}), order |-> R(1..1000)]]} :
       PrintT("@@" \o ToJson([ms |-> ms, others |-> [i \in 1..R(0..3) |-> R({"image", "text", "empty", "short", "vk_inside"})], extra |-> R(0..2),
                              depth |-> R(0..2), target |-> R({"default", "existing", "existing", "new"}), stored |-> R(BOOLEAN), folders |-> R(BOOLEAN),
                              lines |-> R({"\n", "\r\n"}), text |-> R(BOOLEAN), foreign |-> R(BOOLEAN)]))
GenSpec == GenInit /\ [][GenNext]_vars

(* e.ms: the measurements; e.out: the files found afterwards that were not there before, each with the number m of the       *)
(* measurement whose bytes it holds (0 if none), and whether it has the name of that measurement exactly; e.foreign: whether *)
(* the files that were there before are as they were; e.outside: whether something appeared elsewhere.                       *)
Count(e, i) == Cardinality({k \in 1..Len(e.out) : e.out[k].m = i})
Alone(e, i) == \A j \in 1..Len(e.ms) : j # i => e.ms[j].name # e.ms[i].name
Named(e, i) == \E k \in 1..Len(e.out) : e.out[k].m = i /\ e.out[k].exact
Clause(ok, n) == IF ok THEN {} ELSE {n}
Verdict(e) ==
    IF e.err # "" THEN {"F08:raised"}
    ELSE Clause(\A i \in 1..Len(e.ms) : Count(e, i) >= 1, "F08:measurement_lost")
    \cup Clause(\A i \in 1..Len(e.ms) : Count(e, i) <= 1, "F08:measurement_twice")
    \cup Clause(\A k \in 1..Len(e.out) : e.out[k].m # 0, "F08:something_else_written")
    \cup Clause(\A i \in 1..Len(e.ms) : Alone(e, i) => Named(e, i), "F08:name")
    \cup Clause(\A i \in 1..Len(e.ms) : \E j \in 1..Len(e.ms) : e.ms[j].name = e.ms[i].name /\ Named(e, j), "F08:name_of_none")
    \cup Clause(e.foreign, "F08:other_files_changed")
    \cup Clause(~e.outside, "F08:outside_of_target")
    \cup Clause(e.archive, "F08:archive_changed")

Traces == JsonDeserialize(IOEnv.TRACE)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ todo = <<>> /\ done = <<>> /\ files = {}
TraceNext == /\ l <= Len(Traces[t])
             /\ LET v == Verdict(Traces[t][l]) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
             /\ l' = l + 1 /\ UNCHANGED <<t, todo, done, files>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
