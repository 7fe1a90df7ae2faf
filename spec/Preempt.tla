-------------------------------- MODULE Preempt --------------------------------
(* Threads of a batch that are interrupted between any two lines (property B02). *)
(* Every file is worked on by a thread that executes lines 1..N.  A plan stops   *)
(* the first thread in front of one line until the others are through, or stops  *)
(* it, lets the next one run up to a second line, and finishes the first before. *)
(* A race is a cell that all threads share: it is written in one line and read   *)
(* in a later one (memo), or tested, filled and read (lazy).  The first part     *)
(* shows that the plans reveal every race whose lines are among the stops, and   *)
(* nothing where there is none; the second one chooses the plans for a recorded  *)
(* sequence of lines, and the third one judges what the implementation did.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, K, NRandom, NPairs
VARIABLES t, l
vars == <<t, l>>
R(S) == RandomElement(S)

\* ---- what a schedule gives: cell, and per thread whether it took the branch, and what it read ----
Start == [cell |-> 0, own |-> [i \in 1..K |-> FALSE], got |-> [i \in 1..K |-> 0]]
\* line n of thread i. memo: every thread writes the cell in line a and reads it in line b.
\* lazy: in line a it looks whether the cell is filled; if not it writes it in line b, in line b + 1 it reads it
\* (what it needs is its own value). leak: it fills the cell in line a and empties it in line b, where an empty one is an error
Line(race, i, n, s) ==
    CASE race.kind = "memo" -> IF n = race.a THEN [s EXCEPT !.cell = i] ELSE IF n = race.b THEN [s EXCEPT !.got[i] = s.cell] ELSE s
      [] race.kind = "lazy" -> IF n = race.a THEN [s EXCEPT !.own[i] = (s.cell = 0)]
                               ELSE IF n = race.b THEN (IF s.own[i] THEN [s EXCEPT !.cell = i] ELSE s)
                               ELSE IF n = race.b + 1 THEN [s EXCEPT !.got[i] = s.cell] ELSE s
      [] race.kind = "leak" -> IF n = race.a THEN [s EXCEPT !.cell = @ + 1]
                               ELSE IF n = race.b THEN [s EXCEPT !.got[i] = IF s.cell = 1 THEN i ELSE 0, !.cell = @ - 1] ELSE s
      [] race.kind = "none" -> IF n = race.b THEN [s EXCEPT !.got[i] = i] ELSE s
RECURSIVE Lines(_, _, _, _, _)
Lines(race, i, a, b, s) == IF a > b THEN s ELSE Lines(race, i, a + 1, b, Line(race, i, a, s))
RECURSIVE Others(_, _, _)
Others(race, i, s) == IF i > K THEN s ELSE Others(race, i + 1, Lines(race, i, 1, N, s))
One(race, k) == Lines(race, 1, k, N, Others(race, 2, Lines(race, 1, 1, k - 1, Start)))
Two(race, k, m) == LET s1 == Lines(race, 1, 1, k - 1, Start)
                       s2 == Lines(race, 2, 1, m - 1, s1)
                       s3 == Lines(race, 1, k, N, s2)
                   IN  Others(race, 3, Lines(race, 2, m, N, s3))
Fine(s) == \A i \in 1..K : s.got[i] = i
Races == {[kind |-> q, a |-> a, b |-> b] : q \in {"memo", "leak", "lazy"}, a \in 1..N, b \in 1..N}
Proper(r) == r.a < r.b /\ (r.kind = "lazy" => r.b < N)
NoRace == [kind |-> "none", a |-> 1, b |-> N]

DesignInit == t = 0 /\ l = 0
DesignSpec == DesignInit /\ [][UNCHANGED vars]_vars
NoFalseAlarm == \A k \in 1..N + 1 : Fine(One(NoRace, k)) /\ \A m \in 1..N + 1 : Fine(Two(NoRace, k, m))
\* memo and leak are revealed by one stop, and by exactly those stops between the two lines
OneStopReveals == \A r \in {x \in Races : Proper(x) /\ x.kind # "lazy"} : \A k \in 1..N + 1 : Fine(One(r, k)) <=> ~(r.a < k /\ k <= r.b)
\* a lazily filled cell that belongs to one thread is wrong for the others even one after the other
LazyReveals == \A r \in {x \in Races : Proper(x) /\ x.kind = "lazy"} : \A k \in 1..N + 1 : (k <= r.a \/ k > r.b) => ~Fine(One(r, k))
\* no single stop reveals everything: all lines have to be stops
NeedsAll == \A k \in 1..N + 1 : \E r \in Races : Proper(r) /\ r.kind = "memo" /\ Fine(One(r, k))

-----------------------------------------------------------------------------
\* ---- the plans for a recorded sequence of lines ----
Recorded == JsonDeserialize(IOEnv.LINES)      \* per program: the number of every line in the order of their execution
GenInit == t \in 1..Len(Recorded) /\ l = 0
\* the first and the last time that a line is executed
Ends(s) == {i \in 1..Len(s) : \A j \in 1..(i - 1) : s[j] # s[i]} \cup {i \in 1..Len(s) : \A j \in (i + 1)..Len(s) : s[j] # s[i]}
GenNext == /\ l = 0 /\ l' = 1 /\ UNCHANGED t
           /\ \E s \in {Recorded[t]} :
              PrintT("@@" \o ToJson([t |-> t,
                 one |-> Ends(s) \cup {R(1..Len(s)) : i \in 1..NRandom},
                 two |-> [i \in 1..NPairs |-> <<R(1..Len(s)), R(1..Len(s))>>]]))
GenSpec == GenInit /\ [][GenNext]_vars

-----------------------------------------------------------------------------
\* ---- judging: every file has its own row and its own call, whatever the schedule ----
Traces == JsonDeserialize(IOEnv.TRACE)
Clause(ok, name) == IF ok THEN {} ELSE {name}
Occurs(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Occurs(a, a[i]) = Occurs(b, a[i])
Verdict(e) == IF e.err # "" THEN {"B02:interrupted_raised"}
              ELSE Clause(SameBag(e.rows, e.own), "B02:interrupted_rows") \cup Clause(SameBag(e.calls, e.own), "B02:interrupted_calls")
TraceInit == t \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[t]) /\ l' = l + 1 /\ UNCHANGED t
             /\ LET v == Verdict(Traces[t][l]) IN IF v = {} THEN TRUE ELSE PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> v]))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
